/*
 * XDRBG-256 over recorded sponge operations: what is absorbed and squeezed,
 * byte by byte, independent of how the calls are cut.
 */
#include "ec.h"
#include "jitterentropy-sha3.h"

static struct jent_sha_ctx c;
static uint8_t stream[3][96];		/* absorbed before the n-th squeeze */
static unsigned int slen[3], nfin;
static uint8_t V[64], O[96];		/* what the two squeezes yield */
static uint8_t *fin_dst[2];
static unsigned int fin_len[2], wiped[2];
static uint8_t out[48];

void jent_sha3_update(struct jent_sha_ctx *ctx, const uint8_t *in, size_t inlen)
{
	size_t i;

	CHECK(ctx == &c, "works on its pool");
	CHECK(nfin <= 2 && slen[nfin] + inlen <= 96, "absorbs no more than the construction says");
	ASSUME(nfin <= 2 && slen[nfin] + inlen <= 96);
	for (i = 0; i < 96; i++)
		if (i < inlen)
			stream[nfin][slen[nfin] + i] = in[i];
	slen[nfin] += (unsigned int)inlen;
}

void jent_sha3_final(struct jent_sha_ctx *ctx, uint8_t *digest)
{
	unsigned int i, len = ctx->digestsize;

	CHECK(ctx == &c, "works on its pool");
	CHECK(nfin < 2, "two squeezes per block");
	ASSUME(nfin < 2);
	CHECK(len == (nfin ? 96u : 64u), "squeezes the state, then state and output");
	ASSUME(len == (nfin ? 96u : 64u));
	for (i = 0; i < len; i++)
		digest[i] = nfin ? O[i] : V[i];
	fin_dst[nfin] = digest;
	fin_len[nfin] = len;
	nfin++;
}

void jent_memset_secure(void *s, size_t n)
{
	unsigned int k;

	for (k = 0; k < 2; k++)
		if (fin_dst[k] && nfin == 2 && (uint8_t *)s <= fin_dst[k] && (uint8_t *)s + n >= fin_dst[k] + fin_len[k])
			wiped[k] = 1;
	memset(s, 0, n);
}
void *jent_zalloc(size_t len, unsigned int flags) { (void)flags; return calloc(1, len); }
void jent_zfree(void *ptr, size_t len) { (void)len; free(ptr); }

HARNESS(h_drbg)
{
	size_t len = IN64(), n;
	unsigned int i, seeded = INBIT();
	uint8_t before[48];

	memset(&c, 0, sizeof(c));
	jent_shake256_init(&c);
	c.msg_len = IN64();
	for (i = 0; i < 25; i++)
		c.state[i] = IN64();
	c.digestsize = IN8();
	c.initially_seeded = seeded;
	for (i = 0; i < 64; i++)
		V[i] = IN8();
	for (i = 0; i < 96; i++)
		O[i] = IN8();
	for (i = 0; i < 48; i++)
		out[i] = before[i] = IN8();

	jent_drbg_generate_block(&c, out, len);

	n = len > 32 ? 32 : len;
	CHECK(nfin == 2, "the pool is reseeded, then squeezed");
	/* reseed: V' = SHAKE256(V || noise || n), n = 0 first, 85 afterwards */
	CHECK(slen[0] == 1 && stream[0][0] == (seeded ? 85 : 0), "seeding and reseeding are told apart");
	/* generate: V'' || output = SHAKE256(V' || 170) */
	CHECK(slen[1] == 65 && stream[1][64] == 170, "generation has its own encoding");
	for (i = 0; i < 64; i++)
		CHECK(stream[1][i] == V[i], "the output depends on the reseeded state");
	/* the next state opens the next message */
	CHECK(slen[2] == 64, "exactly the next state is carried over");
	for (i = 0; i < 64; i++)
		CHECK(stream[2][i] == O[i], "the carried state is not the output");
	for (i = 0; i < 48; i++)
		CHECK(out[i] == (i < n ? O[64 + i] : before[i]), "the caller gets output bytes, at most 32, and nothing else changes");
	CHECK(c.initially_seeded == 1, "the pool counts as seeded from now on");
	CHECK(wiped[0] && wiped[1], "the squeezed state is erased from the stack");
	WITNESS_IF(len == 0, "no output wanted");
	WITNESS_IF(len > 32, "clamped");
	WITNESS_IF(seeded && len == 5, "short output");
}
