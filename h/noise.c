/*
 * One measurement: real noise.c with jent_stuck(), the hash and the clock
 * recorded. What enters the entropy pool is compared byte by byte.
 */
#include "ec.h"

#define W_JITTER 3
#define W_SHA3 2
#define W_MEM 1
#ifndef WHICH
# define WHICH W_JITTER
#endif
#ifndef GCD
# define GCD 1
#endif

static struct rand_data ec;
static struct jent_sha_ctx pool;
static uint8_t pool_stream[136];
static unsigned int pool_len, pool_ops;
static const uint8_t *pool_src;
static unsigned int pool_src_wiped;
static struct jent_sha_ctx *inner;
static unsigned int inner_init, inner_fin, inner_wiped;
static uint8_t dig[32];			/* what the inner hash yields, last */
static uint64_t times[20], last_time;
static unsigned int ntimes, stuck_calls, stuck_ret, after_stuck_times, inner_before_stuck;
static uint64_t stuck_delta, at_stuck_time, at_stuck_prev, first_time;

void jent_get_nstime_internal(struct rand_data *e, uint64_t *out)
{
	CHECK(e == &ec, "reads its own timer");
	CHECK(ntimes < 20, "bounded number of time stamps");
	ASSUME(ntimes < 20);
	last_time = times[ntimes++];
	*out = last_time;
}

unsigned int jent_stuck(struct rand_data *e, uint64_t d)
{
	CHECK(e == &ec, "tests its own collector");
	stuck_calls++;
	stuck_delta = d;
	at_stuck_time = last_time;
	at_stuck_prev = ntimes >= 2 ? times[ntimes - 2] : 0;
	inner_before_stuck = inner_fin;
	return stuck_ret;
}

void jent_sha3_256_init(struct jent_sha_ctx *ctx)
{
	memset(ctx, 0, sizeof(*ctx));
	ctx->r = 136;
	ctx->digestsize = 32;
	inner = ctx;
	inner_init++;
	inner_wiped = 0;
}
void jent_sha3_update(struct jent_sha_ctx *ctx, const uint8_t *in, size_t inlen)
{
	size_t i;

	if (ctx == &pool) {
		CHECK(pool_len + inlen <= 136, "one block of the pool's rate per measurement");
		ASSUME(pool_len + inlen <= 136);
		for (i = 0; i < 136; i++)
			if (i < inlen)
				pool_stream[pool_len + i] = in[i];
		if (pool_len == 0)
			pool_src = in;
		pool_len += (unsigned int)inlen;
		pool_ops++;
		pool_src_wiped = 0;
	} else {
		CHECK(ctx == inner, "the inner hash is initialized");
		(void)in[0];
		(void)in[inlen - 1];
	}
}
void jent_sha3_final(struct jent_sha_ctx *ctx, uint8_t *digest)
{
	unsigned int i;

	CHECK(ctx == inner && ctx != &pool, "only the inner hash is finalized");
	for (i = 0; i < 32; i++)
		digest[i] = dig[i];
	inner_fin++;
}
void jent_memset_secure(void *s, size_t n)
{
#ifdef NOWIPE
	return;
#endif
	if (pool_src && (uint8_t *)s <= pool_src && (uint8_t *)s + n >= pool_src + 136)
		pool_src_wiped = 1;
	if (inner && s == (void *)inner && n >= sizeof(*inner))
		inner_wiped = 1;
	memset(s, 0, n);
}

HARNESS(h_measure)
{
	uint64_t prev, ret_delta = 0, delta, loop = IN8();
	unsigned int ret, i, hc = IN8(), want_ret = INBIT(), have_mem = INBIT();
	static uint8_t mem[1];

	ASSUME(loop <= 2 && hc >= 1 && hc <= 2);
	memset(&ec, 0, sizeof(ec));
	memset(&pool, 0, sizeof(pool));
	pool.r = 136;
	pool.padding = 0x1f;
	ec.hash_state = &pool;
	ec.prev_time = prev = IN64();
	ec.jent_common_timer_gcd = GCD;
	ec.hashloopcnt = hc;
	ec.memaccessloops = 2;
	ec.mem = have_mem ? mem : NULL;
	ec.memmask = 0;
	ec.rct_count = IN32();
	ec.apt_count = IN32();
	ec.apt_base = IN64();
	stuck_ret = INBIT();
	for (i = 0; i < 20; i++)
		times[i] = IN64();
	for (i = 0; i < 32; i++)
		dig[i] = IN8();

#if WHICH == W_JITTER
	ret = jent_measure_jitter(&ec, loop, want_ret ? &ret_delta : NULL);
	delta = (last_time - prev) / GCD;
	CHECK(at_stuck_time == last_time, "the time stamp is the last one read");
	CHECK(ec.prev_time == last_time, "the next measurement starts where this one ended");
#elif WHICH == W_SHA3
	ret = jent_measure_jitter_ntg1_sha3(&ec, loop, want_ret ? &ret_delta : NULL);
	CHECK(ntimes == 2, "a time stamp before and one after the hash loop");
	delta = (times[1] - times[0]) / GCD;
	CHECK(inner_before_stuck == inner_fin, "the hash loop lies between the time stamps");
#else
	ret = jent_measure_jitter_ntg1_memaccess(&ec, loop, want_ret ? &ret_delta : NULL);
	if (have_mem) {
		CHECK(ntimes == 2, "a time stamp before and one after the memory accesses");
		delta = (times[1] - times[0]) / GCD;
	} else
		delta = 0;
#endif
	CHECK(stuck_calls == 1, "every measurement goes through the health tests once");
	CHECK(stuck_delta == delta, "the health tests see the raw delta");
	CHECK(!ret == !stuck_ret, "the verdict is handed to the caller");
	if (want_ret)
		CHECK(ret_delta == delta, "the delta is reported");
	/* the pool */
	CHECK(pool_len == 136, "a full block enters the pool, stuck or not");
	for (i = 0; i < 8; i++)
		CHECK(pool_stream[i] == (uint8_t)(delta >> (8 * i)), "the time delta enters the pool");
	CHECK(pool_stream[8] == WHICH, "the noise sources are told apart");
	for (i = 0; i < 32; i++)
		CHECK(pool_stream[9 + i] == (WHICH == W_MEM ? 0 : dig[i]), "the hash loop's result is mixed in");
	for (i = 41; i < 136; i++)
		CHECK(pool_stream[i] == 0, "padding");
	CHECK(pool_src_wiped, "the measurement is erased");
#if WHICH != W_MEM
	CHECK(inner_init >= 1 && inner_wiped, "the hash loop's context is erased");
	CHECK(inner_fin == (loop ? loop : WHICH == W_SHA3 ? hc * 3 : hc), "as many hash rounds as configured");
#else
	CHECK(inner_init == 0, "the memory source does not hash");
#endif
	if (have_mem && WHICH != W_SHA3)
		CHECK(mem[0] == (loop ? loop : WHICH == W_MEM ? 6 : 2), "as many memory accesses as configured");
	else
		CHECK(mem[0] == 0, "no memory access from the hash source");
	WITNESS_IF(stuck_ret && delta > 1000 && have_mem, "stuck");
	WITNESS_IF(!have_mem && !want_ret, "no memory");
	WITNESS_IF(loop == 2, "explicit loop count");
}

/* The memory noise source stays inside its memory, whatever the size. */
#ifndef LOOPS
# define LOOPS 3
#endif
HARNESS(h_mem)
{
	unsigned int k = IN8(), i, probe, before;
	uint32_t size, loc = IN32();
	uint8_t *mem;
	uint64_t d;

	ASSUME(k >= 10 && k <= 29);
	size = 1u << k;
	ASSUME(loc < size);
	memset(&ec, 0, sizeof(ec));
	memset(&pool, 0, sizeof(pool));
	pool.r = 136;
	ec.hash_state = &pool;
	mem = malloc(size);
	ASSUME(mem != NULL);
	ec.mem = mem;
	ec.memmask = size - 1;
	ec.memlocation = loc;
	ec.memaccessloops = LOOPS;
	ec.hashloopcnt = 1;
	ec.jent_common_timer_gcd = 1;
	for (i = 0; i < 20; i++)
		times[i] = IN64();
#if WHICH == W_JITTER
	(void)jent_measure_jitter(&ec, 0, &d);
#else
	(void)jent_measure_jitter_ntg1_memaccess(&ec, LOOPS, &d);
	CHECK(ec.memlocation < size, "the next location lies in the memory");
	CHECK(ec.memlocation == (loc + LOOPS * 127) % size, "the walk crosses all blocks");
#endif
	CHECK(ec.mem == mem && ec.memmask == size - 1, "memory stays in place");
	WITNESS_IF(k == 29, "512 MB");
	WITNESS_IF(k == 10, "1 kB");
}

/* as many accesses as the defaults say */
HARNESS(h_loops)
{
	static uint8_t mem[1];
	uint64_t d;
	unsigned int i;

	memset(&ec, 0, sizeof(ec));
	pool.r = 136;
	ec.hash_state = &pool;
	ec.mem = mem;
	ec.memaccessloops = 128;
	ec.hashloopcnt = 1;
	ec.jent_common_timer_gcd = 1;
	mem[0] = IN8();
	i = mem[0];
	for (unsigned int j = 0; j < 20; j++)
		times[j] = IN64();
	jent_measure_jitter(&ec, 0, &d);
	CHECK(mem[0] == (uint8_t)(i + 128), "128 accesses of one byte each");
	ntimes = 0;
	pool_len = 0;
	jent_measure_jitter_ntg1_memaccess(&ec, 0, &d);
	CHECK(mem[0] == (uint8_t)(i + 128 * 4), "three times as many during startup");
	ntimes = 0;
	pool_len = 0;
	ec.memaccessloops = 127;
	i = mem[0];
	jent_measure_jitter_ntg1_memaccess(&ec, 0, &d);
	CHECK(mem[0] == (uint8_t)(i + 127 * 3), "three times 127");
	WITNESS("both");
}

/* as many hash rounds as the largest configuration says, and as asked for */
HARNESS(h_hloops)
{
	uint64_t d;
	unsigned int i;

	memset(&ec, 0, sizeof(ec));
	pool.r = 136;
	ec.hash_state = &pool;
	ec.hashloopcnt = 128;
	ec.jent_common_timer_gcd = 1;
	stuck_ret = INBIT();
	for (i = 0; i < 20; i++)
		times[i] = IN64();
	jent_measure_jitter(&ec, 0, &d);
	CHECK(inner_fin == 128, "128 hash rounds");
	ntimes = pool_len = inner_fin = 0;
	jent_measure_jitter_ntg1_sha3(&ec, 0, &d);
	CHECK(inner_fin == 384, "three times as many during startup");
	ntimes = pool_len = inner_fin = 0;
	jent_measure_jitter(&ec, 300, &d);
	CHECK(inner_fin == 300, "an explicit count beyond a byte");
	WITNESS("all");
}

/* the deterministic walk touches exactly the bytes it passes, one after the other */
HARNESS(h_touch)
{
	uint8_t *mem;
	uint8_t b0, b1, b2, bp;
	uint32_t loc = IN32(), p = IN32(), l1, l2, size;
	uint64_t d;
	unsigned int i, k = IN8();

	ASSUME(k >= 10 && k <= 29);
	size = 1u << k;
	ASSUME(loc < size && p < size);
	mem = malloc(size);
	ASSUME(mem != NULL);
	l1 = (loc + 127) % size;
	l2 = (loc + 254) % size;
	memset(&ec, 0, sizeof(ec));
	memset(&pool, 0, sizeof(pool));
	pool.r = 136;
	ec.hash_state = &pool;
	ec.mem = mem;
	ec.memmask = size - 1;
	ec.memlocation = loc;
	ec.memaccessloops = 9;
	ec.hashloopcnt = 1;
	ec.jent_common_timer_gcd = 1;
	for (i = 0; i < 20; i++)
		times[i] = IN64();
	mem[loc] = b0 = IN8();
	mem[l1] = b1 = IN8();
	mem[l2] = b2 = IN8();
	bp = mem[p];
	(void)jent_measure_jitter_ntg1_memaccess(&ec, 2, &d);
	CHECK(mem[loc] == (uint8_t)(b0 + 1) && mem[l1] == (uint8_t)(b1 + 1), "the walk changes the bytes it passes");
	CHECK(p == loc || p == l1 || mem[p] == bp, "and no other");
	ntimes = 0;
	pool_len = 0;
	(void)jent_measure_jitter_ntg1_memaccess(&ec, 1, &d);
	CHECK(mem[l2] == (uint8_t)(b2 + 1) && mem[loc] == (uint8_t)(b0 + 1), "it continues where it stopped");
	WITNESS_IF(l1 < loc, "across the end");
	WITNESS_IF(p == l2, "end");
}

/*
 * The pseudo-random accesses fall where the documented generator (xoshiro128**,
 * its initial state mixed with one byte of each of sixteen clock readings)
 * sends them, all over the memory.
 */
static uint32_t rotl(uint32_t x, unsigned int n)
{
	return x << n | x >> (32 - n);
}

HARNESS(h_spread)
{
	static const uint32_t init[4] = { 0x8e93eec0, 0xce65608a, 0xa8d46b46, 0xe83cef69 };
	uint32_t s[4], p = IN32(), size, at[LOOPS];
	uint8_t *mem, before;
	uint64_t d;
	unsigned int i, k = IN8(), hits = 0;

	ASSUME(k >= 10 && k <= 29);
	size = 1u << k;
	ASSUME(p < size);
	mem = malloc(size);
	ASSUME(mem != NULL);
	memset(&ec, 0, sizeof(ec));
	memset(&pool, 0, sizeof(pool));
	pool.r = 136;
	ec.hash_state = &pool;
	ec.mem = mem;
	ec.memmask = size - 1;
	ec.memaccessloops = LOOPS;
	ec.hashloopcnt = 1;
	ec.jent_common_timer_gcd = 1;
	for (i = 0; i < 20; i++)
		times[i] = IN64();
	for (i = 0; i < 4; i++)
		s[i] = init[i] ^ ((uint32_t)(uint8_t)times[4 * i] | (uint32_t)(uint8_t)times[4 * i + 1] << 8 |
				  (uint32_t)(uint8_t)times[4 * i + 2] << 16 | (uint32_t)(uint8_t)times[4 * i + 3] << 24);
	for (i = 0; i < LOOPS; i++) {
		uint32_t t = s[1];

		at[i] = (rotl(t * 5, 7) * 9) % size;
		s[2] ^= s[0];
		s[3] ^= t;
		s[1] = t ^ s[2];
		s[0] ^= s[3];
		s[2] ^= t << 9;
		s[3] = rotl(s[3], 11);
		hits += at[i] == p;
	}
	before = mem[p] = IN8();
	(void)jent_measure_jitter(&ec, 0, &d);
	CHECK(mem[p] == (uint8_t)(before + hits), "the accesses go where the generator sends them");
	WITNESS_IF(k == 29 && p == size - 1 && hits, "last byte of 512 MB");
	WITNESS_IF(k == 10 && hits == 2, "one byte twice");
}
