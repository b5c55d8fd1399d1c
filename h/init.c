/*
 * Initialization as the gate of everything else: real base.c, timer.c and
 * health.c; the self tests and the timer test are stubs with any outcome.
 */
#define W_NEC 2
#include "world.h"

#define P_GATE 1
#define P_LATCH 2

static uint8_t sha_fail, gcd_fail;	/* outcome of the next self tests */
static uint8_t tei_bits;		/* outcome of the next timer tests, one bit each */
static unsigned int sha_runs, gcd_runs, tei_runs, tei_osr, tei_order_bad;
static unsigned int tei_flags[4];
static int tei_ret[4];

int jent_sha3_tester(void)
{
	sha_runs++;
	return sha_fail;
}
int jent_gcd_selftest(unsigned int flags)
{
	(void)flags;
	gcd_runs++;
	return gcd_fail ? EHEALTH : 0;
}
int jent_time_entropy_init(unsigned int osr, unsigned int flags)
{
	int r = tei_bits >> (tei_runs & 7) & 1 ? ECOARSETIME + (int)(tei_runs & 1) : 0;

	ASSUME(tei_runs < 4);
	CHECK(!(flags & JENT_FORCE_INTERNAL_TIMER) || !(flags & JENT_NTG1), "the internal timer is never tried in NTG.1 mode");
	if (sha_runs == 0 || sha_fail || gcd_runs == 0 || gcd_fail)
		tei_order_bad = 1;
	if (flags & JENT_FORCE_INTERNAL_TIMER)
		jent_notime_force();
	else if (jent_notime_forced())
		r = ENOTIME;
	tei_osr = osr;
	tei_flags[tei_runs] = flags;
	tei_ret[tei_runs] = r;
	tei_runs++;
	return r;
}
static unsigned int rd_calls;
void jent_random_data(struct rand_data *e)
{
	e->startup_state = jent_startup_completed;
	rd_calls++;
}
void jent_read_random_block(struct rand_data *e, char *dst, size_t len) { (void)e; (void)dst; (void)len; }
uint32_t jent_memsize(unsigned int flags) { (void)flags; return 4096; }

static void world(void)
{
	w_cache_l1 = 32768;
	w_cache_all = 1u << 20;
	w_gcd = 1;
	w_fips = INBIT();
}
static void outcomes(void)
{
	sha_fail = INBIT();
	gcd_fail = INBIT();
	tei_bits = IN8() & 15;
	sha_runs = gcd_runs = tei_runs = tei_order_bad = 0;
}

/* one initialization: verdict against the outcome of its parts */
static int init_once(unsigned int ex)
{
	unsigned int osr = IN32(), flags = IN32();
	int ret, dis, force, ntg1, was_forced = jent_notime_forced();

	outcomes();
	if (!ex) {
		osr = 0;
		flags = 0;
		ret = jent_entropy_init();
	} else
		ret = jent_entropy_init_ex(osr, flags);
	dis = !!(flags & JENT_DISABLE_INTERNAL_TIMER);
	force = !!(flags & JENT_FORCE_INTERNAL_TIMER);
	ntg1 = !!(flags & JENT_NTG1);
	CHECK(sha_runs >= 1, "initialization runs the hash self test");
	CHECK(!tei_order_bad, "the timer is tested only after the self tests passed");
	if (sha_fail)
		CHECK(ret == EHASH, "a failed hash self test is reported");
	else if (gcd_fail)
		CHECK(ret != 0, "a failed divisor self test is reported");
	if (!sha_fail) {
		CHECK(gcd_runs >= 1, "initialization runs the divisor self test");
		WITNESS_IF(gcd_fail, "divisor self test fails");
	}
	if (sha_fail || gcd_fail)
		CHECK(tei_runs == 0, "no timer test after a failed self test");
	else if (ntg1 && force)
		CHECK(ret != 0, "NTG.1 excludes the internal timer");
	else if (force && dis)
		CHECK(ret != 0, "contradicting timer flags are refused");
	else if (force)
		CHECK(tei_runs == 1 && (tei_flags[0] & JENT_FORCE_INTERNAL_TIMER) && ret == tei_ret[0], "only the internal timer is tested when forced");
	else {
		CHECK(tei_runs >= 1 && !(tei_flags[0] & JENT_FORCE_INTERNAL_TIMER), "the hardware timer is tested first");
		if (!tei_ret[0])
			CHECK(tei_runs == 1 && ret == 0, "a good hardware timer is enough");
		else if (dis || ntg1)
			CHECK(tei_runs == 1 && ret == tei_ret[0], "no fallback when the internal timer is excluded");
		else
			CHECK(tei_runs == 2 && (tei_flags[1] & JENT_FORCE_INTERNAL_TIMER) && ret == tei_ret[1], "the internal timer is the fallback, and its verdict counts");
		WITNESS_IF(tei_runs == 2 && ret == 0, "fallback");
	}
	if (tei_runs) {
		CHECK(tei_osr == osr, "the timer is tested at the oversampling rate asked for");
		if (flags & (JENT_FORCE_FIPS | JENT_NTG1))
			CHECK(tei_flags[tei_runs - 1] & JENT_FORCE_SECURE_MEM, "secure memory in FIPS mode");
		CHECK(((tei_flags[tei_runs - 1] ^ flags) & JENT_NTG1) == 0, "the mode is handed on");
	}
	if (ex)
		CHECK(jent_notime_forced() == was_forced || !ntg1, "NTG.1 never chooses the internal timer");
	return ret;
}

HARNESS(h_init)
{
	world();
	/* any earlier choice of the internal timer */
	if (INBIT())
		jent_notime_force();
	WITNESS_IF(init_once(INBIT()) == 0, "success");
}

/* --- the gate: history of initializations and allocations -------------------- */
#ifndef NOPS
# define NOPS 2
#endif
HARNESS(h_gate)
{
	unsigned int k, op, flags;
	int ok = 0, any = 0;
	struct rand_data *e;

	world();
	for (k = 0; k < NOPS; k++) {
		op = k < NOPS - 1 ? IN8() % 3 : 2;
		flags = IN32();
		outcomes();
		if (op < 2) {
			ok = (op ? jent_entropy_init_ex(0, flags) : jent_entropy_init()) == 0;
			any = 1;
		} else {
			w_nec = 0;
			e = jent_entropy_collector_alloc(0, flags & ~(unsigned int)JENT_FORCE_INTERNAL_TIMER);
			if (sha_runs) {
				/* the allocation initialized the library by itself */
				ok = !sha_fail && !gcd_fail && tei_runs && tei_ret[tei_runs - 1] == 0;
				CHECK(!e || ok, "no collector when the initialization fails");
			} else {
				CHECK(!e || ok, "no collector unless the latest initialization succeeded");
				WITNESS_IF(e && any, "collector after initialization");
			}
			WITNESS_IF(!e && !ok, "refused");
			WITNESS_IF(e && sha_runs, "initialized by the allocation");
			if (e) {
				jent_entropy_collector_free(e);
				CHECK(w_live == 0, "released");
			}
			CHECK(!(!e && w_live), "a refused allocation leaves nothing behind");
		}
	}
}

/* --- configuration is fixed by the first initialization ---------------------- */
static unsigned int my_inits[2], my_finis[2], my_starts[2], my_stops[2];
#define IMPL(n)										\
static int my_init_##n(void **ctx) { my_inits[n]++; *ctx = NULL; return 0; }		\
static void my_fini_##n(void *ctx) { (void)ctx; my_finis[n]++; }			\
static int my_start_##n(void *ctx, jent_notime_start_routine r, void *arg)		\
{ (void)ctx; (void)r; (void)arg; my_starts[n]++; return 0; }				\
static void my_stop_##n(void *ctx) { (void)ctx; my_stops[n]++; }
IMPL(0) IMPL(1)
static struct jent_notime_thread my_impl[2] = {
	{ my_init_0, my_fini_0, my_start_0, my_stop_0 }, { my_init_1, my_fini_1, my_start_1, my_stop_1 } };
static unsigned int cb_calls[2];
static void cb0(struct rand_data *e, unsigned int f) { (void)e; (void)f; cb_calls[0]++; }
static void cb1(struct rand_data *e, unsigned int f) { (void)e; (void)f; cb_calls[1]++; }

HARNESS(h_latch)
{
	static struct rand_data ec;
	struct jent_notime_thread impl;
	unsigned int k, op, arg, blocked = 0, cur = 2, cb = 2, miss;
	unsigned long cpu = 0;
	int cpuset = 0, ret;

	world();
	for (k = 0; k < NOPS; k++) {
		op = IN8() & 3;
		arg = INBIT();
		if (op == 0) {
			miss = IN8() % 6;
			impl = my_impl[arg];
			if (miss == 1)
				impl.jent_notime_init = NULL;
			if (miss == 2)
				impl.jent_notime_fini = NULL;
			if (miss == 3)
				impl.jent_notime_start = NULL;
			if (miss == 4)
				impl.jent_notime_stop = NULL;
			ret = jent_entropy_switch_notime_impl(miss == 0 ? &my_impl[arg] : miss == 5 ? NULL : &impl);
			if (blocked)
				CHECK(ret == -EAGAIN, "the timer thread's implementation cannot be changed after initialization");
			else if (miss)
				CHECK(ret == -EINVAL, "an incomplete implementation is refused");
			else {
				CHECK(ret == 0, "the implementation is taken before initialization");
				cur = arg;
			}
		} else if (op == 1) {
			unsigned long c = IN64();

			ret = jent_entropy_set_notime_cpu(c);
			if (blocked)
				CHECK(ret == -EAGAIN, "the timer thread's CPU cannot be changed after initialization");
			else {
				CHECK(ret == 0, "the CPU is taken before initialization");
				cpu = c;
				cpuset = 1;
			}
		} else if (op == 2) {
			ret = jent_set_fips_failure_callback(arg ? cb1 : cb0);
			if (blocked)
				CHECK(ret == -EAGAIN, "the failure callback cannot be changed after initialization");
			else {
				CHECK(ret == 0, "the callback is taken before initialization");
				cb = arg;
			}
		} else {
			outcomes();
			if (arg)
				(void)jent_entropy_init();
			else
				(void)jent_entropy_init_ex(0, IN32());
			blocked = 1;
		}
	}
	/* what is in force */
	ec.is_fips_enabled = 1;
	ec.health_failure = JENT_RCT_FAILURE;
	(void)jent_health_failure(&ec);
	CHECK(cb_calls[0] == (cb == 0) && cb_calls[1] == (cb == 1), "the callback in force is the last one accepted");
	jent_notime_force();
	w_nec = 1;
	w_l_ec_0 = 1;
	CHECK(jent_notime_enable(&w_ec_0, 0) == 0, "the internal timer is set up");
	CHECK(jent_notime_settick(&w_ec_0) == 0, "the timer thread is started");
	if (cur == 2) {
		CHECK(w_ec_0.notime_thread_ctx == &w_ctx_0 && w_thread_of == &w_ec_0, "the built-in implementation is the default");
		CHECK(w_ctx_0.notime_cpu == (cpuset ? cpu : (unsigned long)w_ncpu - 1), "the CPU in force is the last one accepted, the highest by default");
	} else
		CHECK(my_starts[cur] == 1 && my_starts[!cur] == 0 && my_inits[cur] == 1 && my_inits[!cur] == 0 && !w_thread_of, "the implementation in force is the last one accepted");
	jent_notime_unsettick(&w_ec_0);
	CHECK(cur == 2 ? !w_thread_of : my_stops[cur] == 1 && my_stops[!cur] == 0, "and is stopped through the same implementation");
	WITNESS_IF(cur == 1 && cb == 0 && blocked, "configured, then initialized");
	WITNESS_IF(cur == 2 && cpuset && blocked, "CPU configured");
}
