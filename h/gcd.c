/* The common divisor of the timer's deltas: real gcd.c. */
#include "vp.h"
#include "jitterentropy-base.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-gcd.h"

/* --- memory --------------------------------------------------------------- */
static uint64_t pool[16];
static unsigned int live, fail;
static size_t live_len;
static unsigned int za_flags;
void *jent_zalloc(size_t len, unsigned int flags)
{
	za_flags = flags;
	CHECK(len <= sizeof(pool) && !live, "one history at a time");
	if (fail)
		return NULL;
	live = 1;
	live_len = len;
	return pool;
}
void jent_zfree(void *p, size_t len)
{
	CHECK(p == pool && live && len == live_len, "the history is freed once, completely");
	live = 0;
}

#ifndef N
# define N 3
#endif
#ifndef SHIFT
# define SHIFT 0
#endif
#ifndef MAXK
# define MAXK 15
#endif

static uint32_t small_gcd(uint32_t a, uint32_t b)
{
	uint32_t g, r = a > b ? a : b;

	if (a && b)
		for (g = 1; g <= MAXK; g++)
			if (a % g == 0 && b % g == 0)
				r = g;
	return r;
}

static uint64_t hist[N];
static uint64_t g_ref, sum;
static void history(void)
{
	uint8_t k[N];
	unsigned int i;
	uint32_t g = 0;

	sum = 0;
	for (i = 0; i < N; i++) {
		k[i] = IN8();
		ASSUME(k[i] <= MAXK);
		hist[i] = (uint64_t)k[i] << SHIFT;
		g = small_gcd(g, k[i]);
		if (i)
			sum += (uint64_t)(k[i] >= k[i - 1] ? k[i] - k[i - 1] : k[i - 1] - k[i]) << SHIFT;
	}
	g_ref = (uint64_t)g << SHIFT;
}

HARNESS(h_analyze)
{
	uint64_t v = 0x5555, v2 = 0, first;
	uint32_t osr = IN8();
	int ret, exp;

	CHECK(jent_gcd_get(&v) != 0 && v == 0x5555, "no divisor before the first analysis");
	CHECK(jent_gcd_analyze(NULL, N, 3) == 0 && jent_gcd_analyze(hist, 0, 3) == 0, "nothing to analyze");
	CHECK(jent_gcd_get(&v) != 0, "no divisor from nothing");
	ASSUME(osr >= 1 && osr <= 20);
	history();
	ret = jent_gcd_analyze(hist, N, osr);
	exp = sum * osr < N ? EMINVARVAR : g_ref >= UINT32_MAX / 2 ? ECOARSETIME : 0;
	CHECK(ret == exp, "verdict: too little variation, too coarse, or good");
	if (ret) {
		CHECK(jent_gcd_get(&v) != 0 && v == 0x5555, "a bad timer yields no divisor");
	} else {
		CHECK(jent_gcd_get(&v) == 0, "a good timer has a divisor");
		CHECK(v == g_ref && v != 0, "which is the greatest common divisor");
	}
	first = v;
	/* a later analysis */
#if TWICE
	{
		int had = !ret;

		history();
		ret = jent_gcd_analyze(hist, N, osr);
		exp = sum * osr < N ? EMINVARVAR : g_ref >= UINT32_MAX / 2 ? ECOARSETIME : 0;
		CHECK(ret == exp, "verdict of a later analysis");
		if (had)
			CHECK(jent_gcd_get(&v2) == 0 && v2 == first, "the divisor never changes once found");
		else if (!ret)
			CHECK(jent_gcd_get(&v2) == 0 && v2 == g_ref, "the first good analysis sets the divisor");
		else
			CHECK(jent_gcd_get(&v2) != 0, "no divisor yet");
		WITNESS_IF(!had && !ret && g_ref == (uint64_t)3 << SHIFT, "second analysis first to succeed");
	}
#else
	(void)first; (void)v2;
	WITNESS_IF(ret == EMINVARVAR, "no variation");
# if SHIFT >= 31
	WITNESS_IF(ret == ECOARSETIME, "coarse");
# elif SHIFT < 27
	WITNESS_IF(ret == 0 && v == (uint64_t)3 << SHIFT, "divisor 3");
# endif
#endif
}

/* the limit of the divisor, and values far apart */
HARNESS(h_limit)
{
	static const uint64_t base[4] = { 0x7ffffffe, 0x7fffffff, 0x80000000, 0x100000001ULL };
	unsigned int b = IN8() & 3, a = IN8() & 3, c = IN8() & 3;
	uint64_t v = 0, l[3];
	int ret;

	/* 2a+3, 2a+4 times the base: the base is the divisor */
	l[0] = base[b] * (2 * a + 3);
	l[1] = base[b] * (2 * a + 4);
	l[2] = base[b] * (c + 1);
	ret = jent_gcd_analyze(l, 3, 3);
	CHECK(ret == (b ? ECOARSETIME : 0), "a divisor of 2^31 - 1 and more is too coarse");
	CHECK(!jent_gcd_get(&v) == !ret && (ret || v == base[b]), "the divisor below is in force");
	WITNESS_IF(!ret, "good");
	WITNESS_IF(b == 1, "just too coarse");
}

HARNESS(h_selftest)
{
	int ret;
	uint64_t v = 0;

	fail = INBIT();
	ret = jent_gcd_selftest(IN32());
	CHECK(fail ? ret == EMEM : ret == 0, "the self test passes unless there is no memory");
	CHECK(!live, "and leaves nothing behind");
	CHECK(jent_gcd_get(&v) != 0, "the self test sets no divisor");
}

#if THREADS
/* --- publication to concurrent threads ----------------------------------------
 * The atomic operations are the scheduling points: before and after each one
 * the solver may let another thread run: a reader, or a second analysis which
 * is in turn interrupted by readers. */
static uint64_t h3[3] = { 3, 9, 21 }, h5[3] = { 5, 20, 35 }, hbad[3] = { 7, 7, 7 };
static unsigned int depth, others, reads, seen, early;
static uint64_t val;
static void reader(void)
{
	uint64_t v = 0;
	int r;

	depth++;
	r = jent_gcd_get(&v);
	depth--;
	if (r) {
		CHECK(!seen, "the divisor never disappears");
		early = 1;
	} else {
		CHECK(v == 3 || v == 5, "a reader gets a complete divisor of a good timer, or none");
		CHECK(!seen || v == val, "the divisor never changes once seen");
		seen = 1;
		val = v;
	}
}
static void preempt(void)
{
	uint8_t c;

	if (depth >= 2)
		return;
	c = IN8() & 3;
	if (c == 1 && reads < 3) {
		reads++;
		depth++;
		reader();
		depth--;
	} else if (c >= 2 && !others && depth == 0) {
		others = 1;
		depth++;
		(void)jent_gcd_analyze(c == 2 ? h5 : hbad, 3, 3);
		depth--;
	}
}
int jent_atomic_load_int(int *p) { int v; preempt(); v = *p; preempt(); return v; }
void jent_atomic_store_int(int *p, int v) { preempt(); *p = v; preempt(); }
int jent_atomic_exchange_int(int *p, int v) { int o; preempt(); o = *p; *p = v; preempt(); return o; }
HARNESS(h_threads)
{
	uint64_t v = 0;

	CHECK(jent_gcd_analyze(h3, 3, 3) == 0, "the verdict does not depend on other threads");
	depth = 2;
	reader();
	CHECK(jent_gcd_get(&v) == 0, "in the end a divisor is in force");
	WITNESS_IF(val == 5, "the other thread's divisor");
	WITNESS_IF(early && val == 3, "a reader came too early");
}
#endif
