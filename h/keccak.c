/*
 * SHA-3/SHAKE: the permutation against FIPS 202, and the sponge around it.
 * The reference is written from the standard's formulas.
 */
#include "ec.h"
#include "jitterentropy-sha3.h"

void jent_memset_secure(void *s, size_t n) { memset(s, 0, n); }
void *jent_zalloc(size_t len, unsigned int flags) { (void)flags; return calloc(1, len); }
void jent_zfree(void *ptr, size_t len) { (void)len; free(ptr); }

static uint64_t rol(uint64_t x, unsigned int n) { return n ? (x << n) | (x >> (64 - n)) : x; }

#if defined(VP_SOLVER) && defined(STUB_jent_keccakp_1600)
/* The sponge harnesses do not depend on what the permutation is: a cheap
 * bijection stands in for it, in the code and in the reference alike. */
static void ref_f(uint64_t s[25])
{
	uint64_t t[25];
	unsigned int i;

	for (i = 0; i < 25; i++)
		t[i] = rol(s[(i + 7) % 25], 1 + i) ^ (0x0123456789abcdefULL * (i + 1));
	for (i = 0; i < 25; i++)
		s[i] = t[i];
}
void jent_keccakp_1600(uint64_t s[25]) { ref_f(s); }
#else
/* the round constants' bits come from the LFSR x^8 + x^6 + x^5 + x^4 + 1 */
static uint64_t rc_of(unsigned int round)
{
	uint64_t v = 0;
	unsigned int j, t;

	for (j = 0; j <= 6; j++) {
		unsigned int r = 1;

		for (t = 0; t < (j + 7 * round) % 255; t++) {
			r <<= 1;
			if (r & 0x100)
				r ^= 0x171;
		}
		if (r & 1)
			v |= 1ULL << ((1u << j) - 1);
	}
	return v;
}
static void ref_f(uint64_t s[25])
{
	for (int r = 0; r < 24; r++) {
		uint64_t C[5], D[5], B[25];

		for (int x = 0; x < 5; x++)
			C[x] = s[x] ^ s[x+5] ^ s[x+10] ^ s[x+15] ^ s[x+20];
		for (int x = 0; x < 5; x++)
			D[x] = C[(x+4)%5] ^ rol(C[(x+1)%5], 1);
		for (int i = 0; i < 25; i++)
			s[i] ^= D[i%5];
		int x = 1, y = 0;
		B[0] = s[0];
		for (int t = 0; t < 24; t++) {
			unsigned ro = ((t+1)*(t+2)/2) % 64;
			int nx = y, ny = (2*x + 3*y) % 5;

			B[nx + 5*ny] = rol(s[x + 5*y], ro);
			x = nx; y = ny;
		}
		for (int yy = 0; yy < 5; yy++)
			for (int xx = 0; xx < 5; xx++)
				s[xx+5*yy] = B[xx+5*yy] ^ (~B[(xx+1)%5+5*yy] & B[(xx+2)%5+5*yy]);
		s[0] ^= rc_of(r);
	}
}
#endif

static void ref_absorb(uint64_t s[25], const uint8_t *p)
{
	unsigned int i, j;

	for (i = 0; i < 17; i++) {
		uint64_t v = 0;
		for (j = 0; j < 8; j++)
			v |= (uint64_t)p[8 * i + j] << (8 * j);
		s[i] ^= v;
	}
	ref_f(s);
}

/* any state, any block */
HARNESS(h_perm)
{
	static struct jent_sha_ctx c;
	static uint64_t r[25];
	static uint8_t z[136];
	unsigned int i;

	jent_sha3_256_init(&c);
	for (i = 0; i < 25; i++)
		r[i] = c.state[i] = IN64();
	for (i = 0; i < 136; i++)
		z[i] = IN8();
	jent_sha3_update(&c, z, 136);
	ref_absorb(r, z);
	for (i = 0; i < 25; i++)
		CHECK(c.state[i] == r[i], "absorbing a block is Keccak-f[1600] of FIPS 202");
	WITNESS("end");
}

/*
 * A message of any content delivered in two updates of a and b bytes, split by
 * the symbolic executor over the lengths: the digest is that of the whole.
 */
#ifndef A_LIST
# define A_LIST 0, 1, 8, 65, 135, 136
# define B_LIST 0, 1, 71, 135, 136, 137, 272
#endif
#define MAXMSG 480
static uint8_t m[MAXMSG];

static void sponge(unsigned int a, unsigned int b, unsigned int shake, unsigned int dsz)
{
	struct jent_sha_ctx c;
	uint64_t r[25] = { 0 };
	uint8_t blk[136], out[104], exp[104];
	unsigned int i, n, nblk, len = a + b;

	if (shake) {
		jent_shake256_init(&c);
		CHECK(!c.initially_seeded, "a fresh pool is not seeded");
		jent_shake256_set_digestsize(&c, dsz);
	} else {
		jent_sha3_256_init(&c);
	}
	CHECK(jent_sha3_rate(&c) == 136, "256 bits of security strength");
	jent_sha3_update(&c, m, a);
	jent_sha3_update(&c, m + a, b);
	for (i = 0; i < 104; i++)
		out[i] = exp[i] = 0x5a;
	jent_sha3_final(&c, out);

	nblk = len / 136 + 1;
	for (n = 0; n < nblk; n++) {
		for (i = 0; i < 136; i++) {
			unsigned int p = n * 136 + i;

			blk[i] = p < len ? m[p] : p == len ? (shake ? 0x1f : 0x06) : 0;
			if (p == nblk * 136 - 1)
				blk[i] |= 0x80;
		}
		ref_absorb(r, blk);
	}
	for (i = 0; i < dsz; i++)
		exp[i] = (uint8_t)(r[i / 8] >> (8 * (i % 8)));
	for (i = 0; i < 104; i++)
		CHECK(out[i] == exp[i], "digest of the whole message, of the requested length");
	/* ready for the next message: nothing of this one is left */
	for (i = 0; i < 25; i++)
		CHECK(c.state[i] == 0, "the context starts over");
	CHECK(c.msg_len == 0, "the context starts over at length zero");
	for (i = 0; i < 136; i++)
		CHECK(c.partial[i] == 0, "the message buffer is erased");
	WITNESS("digest computed");
}

HARNESS(h_sponge)
{
	static const unsigned int al[] = { A_LIST }, bl[] = { B_LIST };
	static const unsigned int dl[] = { 32, 64, 96 };
	unsigned int a = IN16(), b = IN16(), kind = IN8(), i, j, k;

	for (i = 0; i < MAXMSG; i++)
		m[i] = IN8();
	for (i = 0; i < sizeof(al) / sizeof(*al); i++)
		for (j = 0; j < sizeof(bl) / sizeof(*bl); j++)
			for (k = 0; k < 3; k++)
				if (al[i] == a && bl[j] == b && kind == k) {
					sponge(al[i], bl[j], k > 0, dl[k]);
					return;
				}
}
