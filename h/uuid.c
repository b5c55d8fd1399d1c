/* The identifier of a collector: real uuid.c and status.c's jent_uuid(). */
#include "vp.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"

static uint8_t rnd[16];
static int fail;
static unsigned int asked;
int jent_os_random_bytes(uint8_t *b, size_t len)
{
	unsigned int i;

	CHECK(len == 16, "128 bits");
	asked++;
	for (i = 0; i < 16; i++)
		if (!fail || (i & 1))	/* a failure may leave anything behind */
			b[i] = rnd[i];
	return fail ? -1 : 0;
}
static const char digits[] = "0123456789abcdef";
HARNESS(h_uuid)
{
	static char out[40];
	unsigned int i, j = 0;
	uint8_t k;

	for (i = 0; i < 16; i++)
		rnd[i] = IN8();
	fail = INBIT();
	for (i = 0; i < sizeof(out); i++)
		out[i] = 'x';
	jent_uuid_generate(out);
	CHECK(asked == 1, "made of the system's randomness");
	for (i = 0; i < 16; i++) {
		k = fail ? 0 : rnd[i];
		if (!fail && i == 6)
			k = (uint8_t)((k & 15) | 64);
		if (!fail && i == 8)
			k = (uint8_t)((k & 63) | 128);
		if (j == 8 || j == 13 || j == 18 || j == 23)
			CHECK(out[j++] == '-', "canonical form");
		CHECK(out[j] == digits[k / 16] && out[j + 1] == digits[k % 16], "version 4 identifier of the random bytes, or the nil identifier");
		j += 2;
	}
	CHECK(j == 36 && out[36] == 0, "36 characters and the end");
	CHECK(out[37] == 'x' && out[38] == 'x' && out[39] == 'x', "and no more");
	WITNESS_IF(!fail && out[14] == '4' && out[19] == 'b', "random");
	WITNESS_IF(fail, "nil");
}
HARNESS(h_uuid_get)
{
	static struct rand_data ec;
	static char buf[48];
	size_t len = IN8(), n = IN8(), i;
	int ret, arg = IN8() & 3;

	ASSUME(n < sizeof(ec.uuid) && len <= 44);
	for (i = 0; i < sizeof(ec.uuid) - 1; i++)
		if (i < n) {
			ec.uuid[i] = (char)IN8();
			ASSUME(ec.uuid[i]);
		}
	for (i = 0; i < sizeof(buf); i++)
		buf[i] = 'x';
	ret = jent_uuid(arg == 1 ? NULL : &ec, arg == 2 ? NULL : buf + 2, len);
	CHECK(ret == (arg == 1 || arg == 2 || len <= n ? -1 : 0), "delivered when there is room for it");
	for (i = 0; i < sizeof(buf); i++)
		if (i < 2 || i >= 2 + len)
			CHECK(buf[i] == 'x', "nothing is written outside the buffer");
	if (!ret)
		for (i = 0; i < sizeof(ec.uuid); i++)
			if (i <= n)
				CHECK(buf[2 + i] == ec.uuid[i], "the collector's identifier");
	WITNESS_IF(!ret && n == 36 && len == 37, "exact fit");
	WITNESS_IF(ret && n == 36 && len == 36, "one short");
}
