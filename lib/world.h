/*
 * The world around base.c, timer.c and health.c: memory, threads, self tests
 * and the operating system as stubs that may do whatever their contracts allow.
 * Used by the allocation, recovery and initialization harnesses.
 */
#ifndef VP_WORLD_H
#define VP_WORLD_H
#include "ec.h"

#ifndef W_NEC
# define W_NEC 4		/* collectors (and their parts) per run */
#endif

/* --- memory: every allocation is tracked ----------------------------------
 * The n-th collector and its parts live in the n-th slot. */
#define W_SLOT(n)						\
static struct rand_data w_ec_##n;				\
static struct jent_sha_ctx w_sha_##n;				\
static struct jent_notime_ctx w_ctx_##n;			\
static uint8_t w_mem_##n;					\
static uint8_t w_l_ec_##n, w_l_sha_##n, w_l_ctx_##n, w_l_mem_##n; \
static size_t w_memlen_##n;
W_SLOT(0) W_SLOT(1)
#if W_NEC > 2
W_SLOT(2)
# define W_ALL(M) M(0) M(1) M(2)
#else
# define W_ALL(M) M(0) M(1)
#endif
static unsigned int w_nec, w_allocs;
static unsigned int w_fail_at = 0xffffffff;	/* this allocation fails */
static unsigned int w_secure_needed;		/* every allocation must ask for it */

void *jent_zalloc(size_t len, unsigned int flags)
{
	unsigned int ok;

	CHECK(len > 0, "no empty allocation");
	if (w_secure_needed)
		CHECK(flags & JENT_FORCE_SECURE_MEM, "secure memory is requested for every part of the collector");
	ok = w_allocs != w_fail_at;
	w_allocs++;
	if (len == sizeof(struct rand_data)) {
		ASSUME(w_nec < W_NEC);
		w_nec++;
		if (!ok)
			return NULL;
#define M(n)	if (w_nec - 1 == n) { w_l_ec_##n = 1; return &w_ec_##n; }
		W_ALL(M)
#undef M
	}
	if (!ok)
		return NULL;
	CHECK(w_nec > 0, "parts belong to a collector");
	ASSUME(w_nec > 0);
	if (len == sizeof(struct jent_sha_ctx)) {
#define M(n)	if (w_nec - 1 == n) { CHECK(!w_l_sha_##n, "one pool per collector"); w_l_sha_##n = 1; return &w_sha_##n; }
		W_ALL(M)
#undef M
	}
	if (len == sizeof(struct jent_notime_ctx)) {
#define M(n)	if (w_nec - 1 == n) { CHECK(!w_l_ctx_##n, "one timer thread per collector"); w_l_ctx_##n = 1; return &w_ctx_##n; }
		W_ALL(M)
#undef M
	}
#define M(n)	if (w_nec - 1 == n) { CHECK(!w_l_mem_##n, "one memory per collector"); w_l_mem_##n = 1; w_memlen_##n = len; return &w_mem_##n; }
	W_ALL(M)
#undef M
	return NULL;
}

static unsigned int w_threads(void *arg);
void jent_zfree(void *ptr, size_t len)
{
	unsigned int known = 0;

#define M(n)								\
	if (ptr == (void *)&w_ec_##n) {					\
		CHECK(w_l_ec_##n, "a collector is freed once");		\
		CHECK(len == sizeof(struct rand_data), "a collector is freed, and with it erased, at its full size"); \
		CHECK(!w_threads(ptr), "no timer thread runs on freed memory"); \
		w_l_ec_##n = 0;						\
		known = 1;						\
	} else if (ptr == (void *)&w_sha_##n) {				\
		CHECK(w_l_sha_##n, "a pool is freed once");		\
		CHECK(len == sizeof(struct jent_sha_ctx), "a pool is freed, and with it erased, at its full size"); \
		w_l_sha_##n = 0;					\
		known = 1;						\
	} else if (ptr == (void *)&w_ctx_##n) {				\
		CHECK(w_l_ctx_##n, "a thread context is freed once");	\
		CHECK(len == sizeof(struct jent_notime_ctx), "a thread context is freed at its full size"); \
		w_l_ctx_##n = 0;					\
		known = 1;						\
	} else if (ptr == (void *)&w_mem_##n) {				\
		CHECK(w_l_mem_##n, "the memory is freed once");		\
		CHECK(len == w_memlen_##n, "the memory is freed, and with it erased, at its full size"); \
		w_l_mem_##n = 0;					\
		known = 1;						\
	}
	W_ALL(M)
#undef M
	CHECK(known, "only allocated memory is freed");
}
static unsigned int w_live_parts(void)
{
	unsigned int n = 0;
#define M(k)	n += w_l_ec_##k + w_l_sha_##k + w_l_ctx_##k + w_l_mem_##k;
	W_ALL(M)
#undef M
	return n;
}
#define w_live w_live_parts()
static unsigned int w_is_live(const void *p)
{
	unsigned int r = 0;
#define M(n)	r |= (p == (void *)&w_ec_##n && w_l_ec_##n) || (p == (void *)&w_sha_##n && w_l_sha_##n) || \
		     (p == (void *)&w_ctx_##n && w_l_ctx_##n) || (p == (void *)&w_mem_##n && w_l_mem_##n);
	W_ALL(M)
#undef M
	return r;
}
static size_t w_len_of(const void *p)
{
	size_t r = 0;
#define M(n)	if (p == (void *)&w_mem_##n) r = w_memlen_##n;
	W_ALL(M)
#undef M
	return r;
}
void jent_memset_secure(void *s, size_t n) { memset(s, 0, n); }

/* --- threads --------------------------------------------------------------- */
static void *w_thread_of;	/* collector whose timer thread runs */
static unsigned int w_thread_fail_at = 0xffffffff, w_thread_starts;
static unsigned int w_threads(void *arg) { return w_thread_of == arg && arg; }
int jent_notime_thread_create(struct jent_notime_ctx *ctx, jent_notime_start_routine r, void *arg)
{
	(void)r;
	CHECK(ctx == ((struct rand_data *)arg)->notime_thread_ctx, "the thread belongs to its collector");
	CHECK(!w_thread_of, "one timer thread at a time");
	CHECK(w_is_live(ctx), "a thread is started in live memory");
	if (w_thread_starts++ == w_thread_fail_at)
		return -EAGAIN;
	w_thread_of = arg;
	return 0;
}
void jent_notime_thread_join(struct jent_notime_ctx *ctx)
{
	CHECK(w_is_live(ctx), "a thread is joined through live memory");
	if (w_thread_of && ((struct rand_data *)w_thread_of)->notime_thread_ctx == ctx) {
		CHECK(((struct rand_data *)w_thread_of)->notime_interrupt, "the thread is told to stop");
		w_thread_of = NULL;
	}
}
int jent_thread_pin_to_cpu(unsigned long cpu) { (void)cpu; return 0; }
void jent_yield(void) { }
static long w_ncpu = 4;
long jent_ncpu(void) { return w_ncpu; }
long jent_cpu_highest(void) { return w_ncpu - 1; }
void jent_get_nstime(uint64_t *out) { *out = 1; }

/* --- machine and system ------------------------------------------------------ */
static uint32_t w_cache_l1, w_cache_all;
static int w_fips;
uint32_t jent_cache_size_roundup(int all) { return all ? w_cache_all : w_cache_l1; }
int jent_fips_enabled(void) { return w_fips; }
static unsigned int w_uuids;
void jent_uuid_generate(char *out)
{
	unsigned int i;

	w_uuids++;
	for (i = 0; i < JENT_UUID_STRLEN - 1; i++)
		out[i] = (char)('a' + w_uuids);
	out[JENT_UUID_STRLEN - 1] = 0;
}

/* --- hash ---------------------------------------------------------------------- */
int jent_sha3_alloc(void **hash_state, unsigned int flags)
{
	void *p = jent_zalloc(sizeof(struct jent_sha_ctx), flags);

	if (!p)
		return 1;
	*hash_state = p;
	return 0;
}
void jent_sha3_dealloc(void *s) { if (s) jent_zfree(s, sizeof(struct jent_sha_ctx)); }
static unsigned int w_pool_inits;
void jent_shake256_init(struct jent_sha_ctx *ctx) { CHECK(w_is_live(ctx), "the pool is allocated"); ctx->r = 136; ctx->padding = 0x1f; w_pool_inits++; }
static uint64_t w_gcd;
static int w_gcd_ret;
int jent_gcd_get(uint64_t *v) { if (!w_gcd_ret) *v = w_gcd; return w_gcd_ret; }
#endif
