/*
 * Allocation, release and recovery of a collector: real base.c, timer.c and
 * health.c over the tracked world of world.h. The startup test, the block
 * generator and reads are stubs with any outcome.
 */
#ifndef W_NEC
# define W_NEC 2
#endif
#include "world.h"

/* ONLY selects what a check about one part of the carried state asserts */
#ifndef ONLY
# define ONLY 0
#endif
#define SC(tag, c, m) do { if (ONLY == 0 || ONLY == (tag)) CHECK(c, m); } while (0)

#define P_ALLOC 1
#define P_SIZE 2
#define P_SAFE 3
#define P_SAFESELF 4
#ifndef PART
# define PART P_ALLOC
#endif
#ifndef NOMEM
# define NOMEM 0
#endif
#ifndef TIMER
# define TIMER 0
#endif
#ifndef MAXFAIL
# define MAXFAIL 1
#endif
#ifndef RDMAX
# define RDMAX (MAXFAIL + 1)
#endif

/* --- outcome of the startup test ----------------------------------------------- */
static uint32_t init_bits;		/* which calls of the startup test fail */
static unsigned int init_calls, init_last_osr, init_last_flags, init_min_osr;
int jent_entropy_init_ex(unsigned int osr, unsigned int flags)
{
	unsigned int r = init_calls < 32 ? init_bits >> init_calls & 1 : 0;

	CHECK(osr >= init_min_osr, "the startup test examines the raised rate");
	init_calls++;
	init_last_osr = osr;
	init_last_flags = flags;
	return r ? EHEALTH : 0;
}
static unsigned int tei_fail;
int jent_time_entropy_init(unsigned int osr, unsigned int flags) { return tei_fail ? ENOTIME : 0; }

/* --- outcome of the startup blocks -------------------------------------------- */
static uint8_t rd_fail[8], rd_bits[8], rd_stall[8];
static unsigned int rd_calls;
void jent_random_data(struct rand_data *e)
{
	CHECK(w_is_live(e), "noise is collected in live memory");
	CHECK(!e->enable_notime || w_thread_of == e, "the timer thread runs while noise is collected");
	CHECK(!e->is_fips_enabled || e->startup_state == jent_startup_memory, "startup in FIPS mode begins with the memory noise source");
	ASSUME(rd_calls < RDMAX);
	if (rd_calls < MAXFAIL && rd_fail[rd_calls])
		e->health_failure |= 1u << (rd_bits[rd_calls] & 3);
	e->startup_state = jent_startup_completed;
	rd_calls++;
}
void jent_read_random_block(struct rand_data *e, char *dst, size_t len) { (void)e; if (len) dst[0] = 1; }

#if PART != P_SIZE
/* sizes are C13's subject: here every collector has 4 kB */
uint32_t jent_memsize(unsigned int flags) { (void)flags; return 4096; }
#endif

static void world(void)
{
	unsigned int i;

	w_cache_l1 = IN32();
	w_cache_all = IN32();
	/* both are rounded to a power of two by their provider */
	ASSUME(!(w_cache_l1 & (w_cache_l1 - 1)) && !(w_cache_all & (w_cache_all - 1)));
	w_fips = INBIT();
	w_gcd_ret = INBIT();
	w_gcd = IN64();
	ASSUME(w_gcd != 0);
	w_fail_at = IN8();
	w_thread_fail_at = IN8();
	w_ncpu = (long)(IN8() & 7);
	init_bits = IN32();
	tei_fail = INBIT();
	for (i = 0; i < MAXFAIL; i++) {
		rd_fail[i] = INBIT();
		rd_bits[i] = IN8();
	}
}

static uint64_t pow2(unsigned int n) { return 1ULL << n; }

/* --- everything a collector that is handed out satisfies ------------------------ */
static void check_good(struct rand_data *e, unsigned int osr, unsigned int flags)
{
	unsigned int fips = w_fips || (flags & (JENT_FORCE_FIPS | JENT_NTG1));
	unsigned int parts = 2, i;

	CHECK(w_is_live(e), "the collector is live memory");
	CHECK(e->hash_state && w_is_live(e->hash_state), "the collector has an entropy pool");
	CHECK(w_pool_inits >= 1, "the pool is initialized");
	CHECK(e->startup_state == jent_startup_completed, "startup is completed before the collector is handed out");
	CHECK(!fips == !e->is_fips_enabled, "FIPS mode is on when asked for by flag, NTG.1 or system");
	CHECK(!(fips && e->health_failure), "no collector is handed out with a health failure in FIPS mode");
	CHECK(e->osr >= JENT_MIN_OSR && e->osr >= osr && e->osr <= JENT_MAX_OSR, "the oversampling rate is at least the one asked for");
	CHECK(!(flags & JENT_DISABLE_INTERNAL_TIMER) || !(flags & JENT_FORCE_INTERNAL_TIMER), "contradicting timer flags are refused");
	CHECK(!(e->enable_notime && (flags & (JENT_NTG1 | JENT_DISABLE_INTERNAL_TIMER))), "no internal timer when excluded or in NTG.1 mode");
	CHECK(!((flags & JENT_FORCE_INTERNAL_TIMER) && !(flags & JENT_NTG1)) || e->enable_notime, "the internal timer is used when forced");
	if (e->enable_notime) {
		CHECK(e->notime_thread_ctx && w_is_live(e->notime_thread_ctx), "the timer thread has a context");
		CHECK(w_ncpu >= 2, "the internal timer needs a second CPU");
		parts++;
	}
	CHECK(!(fips && (flags & JENT_DISABLE_MEMORY_ACCESS)), "the memory noise source cannot be disabled in FIPS mode");
	if (flags & JENT_DISABLE_MEMORY_ACCESS)
		CHECK(!e->mem, "no memory when disabled");
	else {
		CHECK(e->mem && w_is_live(e->mem), "the memory noise source has memory");
		CHECK(w_len_of(e->mem) == (uint64_t)e->memmask + 1, "the address mask covers exactly the memory");
		CHECK(!((uint64_t)e->memmask + 1 & e->memmask), "the mask is one below a power of two");
		CHECK(e->memlocation <= e->memmask, "the walk starts inside");
		parts++;
	}
	CHECK(e->jent_common_timer_gcd == (w_gcd_ret ? 1 : w_gcd), "the common timer divisor is taken over");
	CHECK(e->jent_common_timer_gcd != 0, "the divisor is never zero");
	CHECK(e->hashloopcnt >= 1 && e->hashloopcnt <= 128, "hash loop count in range");
	CHECK(e->memaccessloops || !e->mem, "memory is accessed");
	CHECK(w_live == parts, "nothing beside the collector's parts stays allocated");
	CHECK(!w_thread_of, "no timer thread is left running");
	CHECK(e->uuid[0] != 0, "the collector has an identifier");
	CHECK(!e->selftest_failed, "no failed self test");
	/* what the cutoffs of a mode and rate are is the subject of C04 to C07 */
	{
		static struct rand_data ref;

		ref.osr = e->osr;
		jent_health_init(&ref, (flags & JENT_NTG1) ? jent_health_init_type_ntg1 : jent_health_init_type_common);
		SC(1, e->rct_cutoff == ref.rct_cutoff && e->rct_cutoff_permanent == ref.rct_cutoff_permanent, "RCT cutoffs are those of the mode and rate");
		SC(2, e->apt_cutoff == ref.apt_cutoff && e->apt_cutoff_permanent == ref.apt_cutoff_permanent, "APT cutoffs are those of the mode and rate");
		SC(3, e->lag_local_cutoff == ref.lag_local_cutoff && e->lag_local_cutoff_permanent == ref.lag_local_cutoff_permanent &&
		   e->lag_global_cutoff == ref.lag_global_cutoff && e->lag_global_cutoff_permanent == ref.lag_global_cutoff_permanent, "LAG cutoffs are those of the rate");
		SC(4, e->rct_mem_cutoff == ref.rct_mem_cutoff && e->rct_mem_cutoff_permanent == ref.rct_mem_cutoff_permanent, "RCT-mem cutoffs are those of the mode and rate");
	}
}

#if PART == P_ALLOC
HARNESS(h_alloc)
{
	unsigned int osr = IN32(), flags = IN32(), fips;
	struct rand_data *e;

	world();
	fips = w_fips || (flags & (JENT_FORCE_FIPS | JENT_NTG1));
	w_secure_needed = flags & (JENT_FORCE_FIPS | JENT_NTG1);
	/* the internal timer may have been chosen before */
	if (INBIT())
		jent_notime_force();

	e = jent_entropy_collector_alloc(osr, flags);

	if (!e) {
		CHECK(w_live == 0, "a failed allocation leaves nothing behind");
		CHECK(!w_thread_of, "a failed allocation leaves no thread behind");
		WITNESS_IF(w_fail_at == 2, "hash state allocation failed");
#if !defined(MAXFAIL) || MAXFAIL
		WITNESS_IF(rd_calls == 1 && rd_fail[0], "startup health failure");
#endif
	} else {
		CHECK(osr <= JENT_MAX_OSR, "an excessive oversampling rate is refused");
		CHECK(init_calls >= 1, "the first allocation runs the startup test");
		CHECK(!(init_bits & 1), "no collector when the startup test failed");
		check_good(e, osr, flags);
		CHECK(w_uuids >= 1, "an identifier was generated");
		if (MAXFAIL && fips && rd_fail[0]) {
			CHECK(e->osr > osr, "a startup health failure raises the oversampling rate");
			CHECK(e->reinit_count == 1, "the reinitialization is counted");
#if !defined(MAXFAIL) || MAXFAIL
			WITNESS("recovered during startup");
#endif
		}
		WITNESS_IF(e->enable_notime, "internal timer");
		WITNESS_IF((flags & JENT_NTG1) && !w_gcd_ret, "NTG.1");
		WITNESS_IF(!e->is_fips_enabled && !e->mem, "no memory");
		/* and it can be released, completely */
		jent_entropy_collector_free(e);
		CHECK(w_live == 0, "release frees every part");
		CHECK(!w_thread_of, "release leaves no thread");
	}
}

HARNESS(h_free_null)
{
	jent_entropy_collector_free(NULL);
	CHECK(w_live == 0, "releasing nothing is fine");
	WITNESS("done");
}
#endif

#if PART == P_SIZE
/* memory sizes and hash loops for every flag word */
HARNESS(h_size)
{
	unsigned int flags = IN32(), f = flags >> 27, h = flags >> 24 & 7;
	struct rand_data *e;
	uint64_t size, cache;

	world();
	w_fail_at = w_thread_fail_at = 0xffffffff;
	init_bits = 0;
	CHECK(jent_memsize(flags) == (f == 0 ? pow2(18) : f > 20 ? pow2(29) : pow2(9 + f)), "memory size of a flag word");
	CHECK(jent_hashloop_cnt(flags) == pow2(h), "hash loop count of a flag word");

	e = jent_entropy_collector_alloc(0, flags);
	ASSUME(e != NULL);
	CHECK(e->hashloopcnt == pow2(h), "the hash loop runs as often as asked for");
	CHECK(e->osr == JENT_MIN_OSR, "the minimum oversampling rate is the default");
	if (e->mem) {
		size = (uint64_t)e->memmask + 1;
		CHECK(size >= 1024 && size <= pow2(29), "1 kB to 512 MB");
		if (f) {
			CHECK(size == (f > 20 ? pow2(29) : pow2(9 + f)), "a requested memory size is honoured, capped at the maximum");
			CHECK(e->max_mem_set, "a requested size is remembered as such");
			WITNESS_IF(f == 20, "512 MB requested");
			WITNESS_IF(f == 31, "excess requested");
		} else {
			cache = flags & JENT_CACHE_ALL ? w_cache_all : w_cache_l1;
			CHECK(!e->max_mem_set, "an automatic size is remembered as such");
			CHECK(size >= cache || size == pow2(29), "automatic memory covers the cache, up to the maximum");
			if (!(flags & JENT_CACHE_ALL))
				CHECK(size >= 4 * cache || size == pow2(29), "automatic memory exceeds the L1 cache");
			CHECK(cache > 1 || size == pow2(18), "256 kB when the cache size is unknown");
			CHECK(cache < 4096 || size <= 4 * cache, "automatic memory is not excessive");
			WITNESS_IF(cache > pow2(29), "huge cache");
			WITNESS_IF(cache == 32768, "32 kB L1");
		}
	}
	/* what the collector reports about itself reproduces it */
	CHECK(jent_memsize(e->flags) == (uint64_t)e->memmask + 1 || !e->mem, "the stored flags describe the memory");
	CHECK(jent_hashloop_cnt(e->flags) == e->hashloopcnt, "the stored flags describe the hash loop");
}
#endif

#if PART == P_SAFE
/* --- recovery of a running collector --------------------------------------------
 * The plain read is a stub: its first result is any, the ones after a recovery
 * are the fixed sequence LATER, so that the number of recoveries is bounded. */
#ifndef LATER
# define LATER 5
#endif
#define OK 5		/* length of the request */
static const ssize_t later[] = { LATER };
#define NLATER (sizeof(later) / sizeof(later[0]))
static ssize_t rd_first;
static unsigned int reads;
static char out[8];
static struct rand_data *rd_ec[4];
static ssize_t rd_ret[4];
ssize_t jent_read_entropy(struct rand_data *e, char *data, size_t len)
{
	ssize_t r;

	CHECK(w_is_live(e), "reads from a live collector");
	CHECK(data == out && len == OK, "the whole request is repeated after a recovery");
	CHECK(!w_thread_of, "no timer thread is running");
	/* one collector per recovery so far */
	ASSUME(w_nec == reads + 1);
	w_nec = reads + 1;
	ASSUME(reads <= NLATER);
	r = reads == 0 ? rd_first : later[reads - 1];
	rd_ec[reads] = e;
	rd_ret[reads] = r;
	reads++;
	if (r >= 0) {
		e->read_invocations++;
		e->bytes_output += len;
	}
	return r;
}

static int intermittent(ssize_t r)
{
	return r == JENT_ERR_RCT || r == JENT_ERR_APT || r == JENT_ERR_LAG || r == JENT_ERR_RCT_MEM;
}

static unsigned int memfield(unsigned int f, unsigned int n, unsigned int fixed)
{
	return fixed ? f : f + n > 20 ? 20 : f + n;
}
/* the startup test fails at each of the rates left; or it succeeds, and fails in
 * the allocation that follows */
static unsigned int impossible(unsigned int n)
{
	unsigned int i;

	for (i = 0; i < 18; i++)
		if (i < n && !(init_bits >> i & 1))
			return init_bits >> (i + 1) & 1;
	return 1;
}
static struct rand_data old;
HARNESS(h_safe)
{
	unsigned int flags = IN32(), i, nrec, f, h;
	struct rand_data *e = &w_ec_0, *o = &w_ec_0;
	ssize_t ret;

	w_cache_l1 = 32768;
	w_cache_all = 1u << 20;
	w_fips = INBIT();
	w_gcd = 1;
	w_ncpu = 4;
	/* a collector as allocation hands it out */
	w_nec = 1;
	w_l_ec_0 = w_l_sha_0 = 1;
	e->hash_state = &w_sha_0;
	flags &= 0xff0001ffu & ~(unsigned int)JENT_FORCE_INTERNAL_TIMER;
	if (flags & (JENT_NTG1 | JENT_FORCE_FIPS)) {
		ASSUME(flags & JENT_FORCE_SECURE_MEM);
		w_secure_needed = 1;
	}
	if (flags & JENT_NTG1)
		ASSUME(flags & JENT_DISABLE_INTERNAL_TIMER);
	e->is_fips_enabled = w_fips || (flags & (JENT_FORCE_FIPS | JENT_NTG1));
	if (NOMEM) {
		ASSUME((flags & JENT_DISABLE_MEMORY_ACCESS) && !e->is_fips_enabled);
	} else {
		ASSUME(!(flags & JENT_DISABLE_MEMORY_ACCESS));
		ASSUME(flags >> 27 >= 1 && flags >> 27 <= 20);
		e->mem = &w_mem_0;
		w_l_mem_0 = 1;
		w_memlen_0 = 4096;
		e->memmask = 4095;
		e->memaccessloops = 128;
		e->max_mem_set = INBIT();
	}
	if (TIMER) {
		ASSUME(!(flags & JENT_DISABLE_INTERNAL_TIMER));
		jent_notime_force();
		w_l_ctx_0 = 1;
		e->notime_thread_ctx = &w_ctx_0;
		e->enable_notime = 1;
	}
	e->flags = flags;
	e->osr = sym_osr();
	e->hashloopcnt = 1u << (flags >> 24 & 7);
	e->jent_common_timer_gcd = 1;
	e->read_invocations = IN64();
	e->bytes_output = IN64();
	e->reinit_count = IN32();
	e->selftest_failed = INBIT();
	for (i = 0; i < JENT_UUID_STRLEN - 1; i++)
		e->uuid[i] = 'x';
	sym_health(e);
	sym_cutoffs(e);
	old = *e;
	rd_first = (int8_t)IN8();
	ASSUME((rd_first >= JENT_ERR_SELFTEST && rd_first < 0) || rd_first == OK);
	/* allocations and startup tests of the recovery may fail */
	w_fail_at = IN8();
	init_bits = IN32();

	init_min_osr = old.osr + 1;
	ret = jent_read_entropy_safe(&e, out, OK);

	nrec = reads - 1;
	SC(0, reads >= 1, "the collector is read");
	SC(0, w_is_live(e) && w_is_live(e->hash_state) && (!e->mem || w_is_live(e->mem)), "the caller is left with a live collector");
	SC(0, w_live == 2 + !!e->mem + !!e->enable_notime, "the old collector is released, and nothing else");
	SC(0, !w_thread_of, "no timer thread is left running");
	if (ret >= 0)
		SC(0, ret == OK && rd_ret[nrec] == OK, "success only when a read succeeded");
	else
		SC(0, ret == rd_ret[nrec], "the error is the one of the last read");
	SC(0, nrec == 0 || intermittent(rd_ret[0]), "only intermittent failures are recovered from");
	if (!intermittent(rd_ret[nrec]) || ret < 0)
		SC(0, e == rd_ec[nrec], "other failures, and failed recoveries, leave the collector in place");
	if (nrec == 0) {
		SC(0, e == o, "no recovery, no new collector");
		SC(0, e->osr == old.osr && e->flags == old.flags && e->reinit_count == old.reinit_count, "no recovery, no change");
		SC(5, e->selftest_failed == old.selftest_failed && e->health_failure == old.health_failure, "no recovery, no reset of failures");
		/* recovery happens whenever it is possible */
		if (intermittent(rd_first))
			SC(0, old.osr == JENT_MAX_OSR || impossible(JENT_MAX_OSR - old.osr) || w_fail_at < 4, "an intermittent failure is recovered from unless impossible");
		WITNESS_IF(intermittent(ret) && old.osr == JENT_MAX_OSR, "oversampling rate exhausted");
		WITNESS_IF(intermittent(ret) && old.osr < JENT_MAX_OSR, "recovery failed");
	} else {
		SC(0, e != o || reads > 2, "a recovery replaces the collector");
		SC(0, e->osr > old.osr && e->osr <= JENT_MAX_OSR, "a recovery raises the oversampling rate");
		SC(0, e->reinit_count == old.reinit_count + nrec, "recoveries are counted");
		SC(0, init_calls >= nrec && !(init_bits >> (init_calls - 1) & 1), "every recovery passes the startup test");
		SC(0, init_last_osr == e->osr && !((init_last_flags ^ e->flags) & (JENT_NTG1 | JENT_FORCE_FIPS)), "the startup test examines the configuration that is used");
		SC(0, !e->is_fips_enabled == !old.is_fips_enabled, "the mode survives");
		SC(0, e->startup_state == jent_startup_completed, "the new collector went through startup");
		SC(0, !!e->mem == !!old.mem, "the noise sources survive");
		SC(0, e->enable_notime == old.enable_notime, "the time source survives");
		SC(0, e->max_mem_set == old.max_mem_set || NOMEM, "the origin of the memory size survives");
		if (!NOMEM) {
			f = old.flags >> 27;
			SC(0, e->flags >> 27 == memfield(f, nrec, old.max_mem_set), "the memory doubles, up to the maximum, unless its size was requested");
		}
		h = (old.flags >> 24 & 7) + nrec;
		SC(0, e->hashloopcnt == 1u << (h > 7 ? 7 : h), "the hash loop doubles, up to the maximum");
		SC(0, (e->flags & 0x1ff) == (old.flags & 0x1ff), "all other flags survive");
		i = IN8();
		ASSUME(i < JENT_UUID_STRLEN);
		SC(0, e->uuid[i] == old.uuid[i], "the identifier survives");
		SC(0, e->read_invocations == old.read_invocations + (ret >= 0) && e->bytes_output == old.bytes_output + (ret >= 0 ? OK : 0), "the accounting survives");
		SC(5, e->selftest_failed == old.selftest_failed, "the self test verdict survives");
		/* the health tests go on where they stood: what was seen before counts */
		if (nrec == 1) {
			SC(1, e->rct_count == e->rct_cutoff, "RCT continues at its intermittent cutoff");
			if (old.apt_observations)
				SC(2, e->apt_base_set && e->apt_base == old.apt_base && e->apt_observations == old.apt_observations && e->apt_count == e->apt_cutoff, "APT continues in its window at its cutoff");
			SC(3, e->lag_prediction_success_run == old.lag_prediction_success_run &&
			      e->lag_prediction_success_count == old.lag_prediction_success_count &&
			      e->lag_best_predictor == old.lag_best_predictor &&
			      e->lag_observations == old.lag_observations, "LAG counters continue");
			i = IN8() & 7;
			SC(3, e->lag_scoreboard[i] == old.lag_scoreboard[i] && e->lag_delta_history[i] == old.lag_delta_history[i], "LAG history continues");
			SC(4, e->rct_mem_count == old.rct_mem_cutoff, "RCT-mem continues at the cutoff");
		}
		SC(0, !e->health_failure, "the new collector starts without failures");
		WITNESS_IF(ret == later[NLATER - 1], "last read reached");
	}
}

HARNESS(h_safe_args)
{
	static struct rand_data x;
	struct rand_data *e = INBIT() ? &x : NULL;
	struct rand_data **pe = INBIT() ? &e : NULL;
	char *d = INBIT() ? out : NULL;
	size_t len = IN64();
	ssize_t ret;

	ASSUME(!pe || !e ? 1 : (!d && len) || !len);
	ASSUME(pe == NULL || (!d && len) || !len);
	ret = jent_read_entropy_safe(pe, d, len);
	if (!pe || (!d && len))
		CHECK(ret == JENT_ERR_EINVAL, "missing arguments are refused");
	else
		CHECK(ret == 0, "an empty request is served");
	CHECK(reads == 0, "nothing is read");
	WITNESS_IF(pe && len == 0, "empty");
	WITNESS_IF(!pe, "no collector");
}
#endif
