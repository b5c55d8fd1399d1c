/*
 * Health tests: one sample through jent_stuck() from an arbitrary collector
 * state, against the tests as SP800-90B and the documentation describe them.
 * PART selects the test whose outcome is asserted.
 */
#include "ec.h"

#define P_STUCK 1
#define P_RCT 2
#define P_APT 3
#define P_LAG 4
#define P_MEM 5
#ifndef PART
# define PART P_STUCK
#endif

/* --- environment: the blocks generated while the memory test recovers ---- */
static struct rand_data *g_ec;
static unsigned int g_blocks, g_bad_env;
static unsigned int g_rec_hf;
static unsigned int g_open, g_bad_open;
static uint64_t g_open_delta;
static uint16_t g_rec_ctr, g_rec_nosr, g_rec_count;

void jent_random_data(struct rand_data *ec)
{
	g_blocks++;
	/* A recovery block: normal operation, marked as recovery. */
	if (ec != g_ec || !ec->in_recovery ||
	    ec->startup_state != jent_startup_completed)
		g_bad_env = 1;
#if PART == P_MEM
	/* A block opens with one measurement of its own, before the count starts
	 * anew with the block: alone it is never a failure. */
	if (g_blocks == 1 && g_open) {
		unsigned int hf = ec->health_failure;

		(void)jent_stuck(ec, g_open_delta);
		if ((ec->health_failure ^ hf) & (JENT_RCT_MEM_FAILURE | JENT_RCT_MEM_FAILURE_PERMANENT))
			g_bad_open = 1;
		if (g_blocks != 1)
			g_bad_open = 1;
		ec->health_failure = hf;
	}
#endif
	/* Any outcome: new failures may be found, the counters move. */
	ec->health_failure |= g_rec_hf;
	ec->rct_mem_ctr = g_rec_ctr;
	ec->rct_mem_nosr = g_rec_nosr;
	ec->rct_mem_count = g_rec_count;
}

/* --- the reference ------------------------------------------------------- */
static uint64_t hist(const struct rand_data *o, unsigned int back)
{
	return o->lag_delta_history[(o->lag_observations - back - 1) & 7];
}

static void setup(struct rand_data *ec, uint64_t *delta)
{
	memset(ec, 0, sizeof(*ec));
	ec->osr = sym_osr();
	ec->is_fips_enabled = INBIT();
	ec->flags = IN32();
	sym_health(ec);
	sym_cutoffs(ec);
	ec->startup_state = sym_startup();
	*delta = IN64();
	g_ec = ec;
	g_rec_hf = IN32();
	g_rec_ctr = IN16();
	g_rec_nosr = IN16();
	g_rec_count = IN16();

	/* What the library's own initialization establishes and preserves. */
	ASSUME(ec->lag_best_predictor < 8);
	ASSUME(ec->lag_observations < (1u << 17));
	ASSUME(ec->rct_cutoff > 0 && ec->rct_cutoff < ec->rct_cutoff_permanent);
	ASSUME(ec->apt_cutoff > 1 && ec->apt_cutoff <= ec->apt_cutoff_permanent &&
	       ec->apt_cutoff_permanent <= 512);
	ASSUME(ec->apt_observations < 512 || !ec->apt_base_set);
	ASSUME(ec->rct_mem_cutoff > 0 &&
	       ec->rct_mem_cutoff < ec->rct_mem_cutoff_permanent);
#if PART == P_MEM
	g_open = INBIT();
	g_open_delta = IN64();
	ASSUME(!g_open || ec->rct_mem_cutoff > 1);
#endif
	ASSUME(ec->lag_local_cutoff > 0 && ec->lag_global_cutoff > 0);
	ASSUME(ec->lag_local_cutoff <= ec->lag_local_cutoff_permanent);
	ASSUME(ec->lag_global_cutoff <= ec->lag_global_cutoff_permanent);
	ASSUME(ec->lag_prediction_success_run < 0x7fffffff);
	ASSUME(ec->lag_prediction_success_count < 0x7fffffff);
	ASSUME(ec->rct_count < 0x7fffffff);
	ASSUME(ec->rct_mem_count < 0xffff);
	/* the position in a block never passes its end, a run never the count */
	ASSUME(ec->rct_mem_ctr <= ec->rct_mem_nosr);
	ASSUME(g_rec_ctr <= g_rec_nosr);
	ASSUME(ec->lag_prediction_success_run <= ec->lag_prediction_success_count);
	/* Scores of a window never exceed the samples of that window */
	for (unsigned int i = 0; i < 8; i++)
		ASSUME(ec->lag_scoreboard[i] <= (1u << 17));
}

HARNESS(h_step)
{
	static struct rand_data ec, o;
	uint64_t delta, d2, d3;
	unsigned int stuck, ret, i;

	setup(&ec, &delta);
	o = ec;

	ret = jent_stuck(&ec, delta);

	d2 = delta - hist(&o, 0);
	d3 = d2 - (hist(&o, 0) - hist(&o, 1));
	stuck = delta == 0 || d2 == 0 || d3 == 0;

#if PART == P_STUCK
	{
		CHECK(!!ret == stuck, "stuck verdict");
		/* nothing but the failure word is ever cleared or raised by a sample */
		CHECK((ec.health_failure & o.health_failure) == o.health_failure,
		      "a recorded failure is never withdrawn");
		CHECK(ec.osr == o.osr && ec.flags == o.flags &&
		      ec.is_fips_enabled == o.is_fips_enabled &&
		      ec.startup_state == o.startup_state &&
		      ec.in_recovery == o.in_recovery, "mode unchanged");
		WITNESS_IF(stuck && delta && d2, "third derivation stuck");
		WITNESS_IF(!stuck, "not stuck");
	}
#endif

#if PART == P_RCT
	{
		unsigned int cnt = stuck ? o.rct_count + 1 : 0;
		unsigned int perm = stuck && cnt >= o.rct_cutoff_permanent;
		unsigned int inter = stuck && !perm && cnt == o.rct_cutoff;
		unsigned int env = g_blocks ? g_rec_hf : 0;
		unsigned int mask = JENT_RCT_FAILURE | JENT_RCT_FAILURE_PERMANENT;

		CHECK(ec.rct_count == cnt, "RCT run length");
		CHECK((ec.health_failure & mask) ==
		      (((o.health_failure | env) & mask) |
		       (perm ? JENT_RCT_FAILURE_PERMANENT : 0u) |
		       (inter ? JENT_RCT_FAILURE : 0u)), "RCT verdict");
		WITNESS_IF(perm, "permanent");
		WITNESS_IF(inter, "intermittent");
		WITNESS_IF(!stuck, "reset");
	}
#endif

#if PART == P_APT
	{
		unsigned int cnt = o.apt_count, obs = o.apt_observations;
		unsigned int set = o.apt_base_set, perm = 0, inter = 0;
		uint64_t base = o.apt_base;
		unsigned int env = g_blocks ? g_rec_hf : 0;
		unsigned int mask = JENT_APT_FAILURE | JENT_APT_FAILURE_PERMANENT;

		if (!set) {
			base = delta; cnt = 1; obs = 1; set = 1;
		} else {
			if (delta == base) {
				cnt++;
				perm = cnt >= o.apt_cutoff_permanent;
				inter = !perm && cnt == o.apt_cutoff;
			}
			obs++;
			if (obs >= 512)
				set = 0;
		}
		CHECK(ec.apt_base_set == set, "APT window boundary");
		if (set) {
			CHECK(ec.apt_base == base, "APT reference value");
			CHECK(ec.apt_count == cnt, "APT occurrence count");
			CHECK(ec.apt_observations == obs, "APT window position");
		}
		CHECK((ec.health_failure & mask) ==
		      (((o.health_failure | env) & mask) |
		       (perm ? JENT_APT_FAILURE_PERMANENT : 0u) |
		       (inter ? JENT_APT_FAILURE : 0u)), "APT verdict");
		WITNESS_IF(perm, "permanent");
		WITNESS_IF(inter, "intermittent");
		WITNESS_IF(o.apt_base_set && !set, "window end");
		WITNESS_IF(!o.apt_base_set, "window start");
	}
#endif

#if PART == P_LAG
	{
		unsigned int cnt = o.lag_prediction_success_count;
		unsigned int run = o.lag_prediction_success_run;
		unsigned int best = o.lag_best_predictor;
		unsigned int score[8], perm = 0, inter = 0, obs = o.lag_observations;
		uint64_t history[8];
		unsigned int env = g_blocks ? g_rec_hf : 0;
		unsigned int mask = JENT_LAG_FAILURE | JENT_LAG_FAILURE_PERMANENT;

		for (i = 0; i < 8; i++) {
			score[i] = o.lag_scoreboard[i];
			history[i] = o.lag_delta_history[i];
		}
		if (obs >= 8) {
			if (hist(&o, best) == delta) {
				cnt++; run++;
				perm = run >= o.lag_local_cutoff_permanent ||
				       cnt >= o.lag_global_cutoff_permanent;
				inter = !perm && (run >= o.lag_local_cutoff ||
						  cnt >= o.lag_global_cutoff);
			} else
				run = 0;
			for (i = 0; i < 8; i++)
				if (hist(&o, i) == delta) {
					score[i]++;
					if (score[i] > score[best])
						best = i;
				}
		}
		history[obs & 7] = delta;
		obs++;
		if (obs >= (1u << 17)) {
			cnt = run = best = obs = 0;
			for (i = 0; i < 8; i++) {
				score[i] = 0;
				history[i] = 0;
			}
		}
		CHECK(ec.lag_prediction_success_count == cnt, "LAG global count");
		CHECK(ec.lag_prediction_success_run == run, "LAG run");
		CHECK(ec.lag_best_predictor == best, "LAG predictor");
		CHECK(ec.lag_observations == obs, "LAG window position");
		for (i = 0; i < 8; i++) {
			CHECK(ec.lag_scoreboard[i] == score[i], "LAG scoreboard");
			CHECK(ec.lag_delta_history[i] == history[i], "LAG history");
		}
		CHECK((ec.health_failure & mask) ==
		      (((o.health_failure | env) & mask) |
		       (perm ? JENT_LAG_FAILURE_PERMANENT : 0u) |
		       (inter ? JENT_LAG_FAILURE : 0u)), "LAG verdict");
		WITNESS_IF(perm, "permanent");
		WITNESS_IF(inter, "intermittent");
		WITNESS_IF(obs == 0, "window end");
		WITNESS_IF(o.lag_observations < 8, "warm up");
		WITNESS_IF(best != o.lag_best_predictor, "predictor moves");
	}
#endif

#if PART == P_MEM
	{
		unsigned int mask = JENT_RCT_MEM_FAILURE | JENT_RCT_MEM_FAILURE_PERMANENT;
		unsigned int ctr = o.rct_mem_ctr, cnt = o.rct_mem_count;
		unsigned int nosr = o.rct_mem_nosr, perm = 0, inter = 0, rec = 0;
		unsigned int inwin = ctr < nosr;

		if (ctr == 0)
			cnt = 0;
		if (stuck && inwin && ctr % 3 == 0)
			cnt++;
		if (cnt >= o.rct_mem_cutoff_permanent)
			perm = inwin;
		else if (cnt == o.rct_mem_cutoff) {
			if (o.in_recovery)
				inter = inwin;
			else
				rec = 1;
		}
		if (rec) {
			CHECK(g_blocks == 10, "ten recovery blocks");
			CHECK(!g_bad_open, "the first extra measurement alone is no failure");
			CHECK(!g_bad_env, "recovery runs in normal operation and is marked");
			cnt = g_rec_count; ctr = g_rec_ctr; nosr = g_rec_nosr;
		} else
			CHECK(g_blocks == 0, "no recovery below the cutoff");
		if (ctr < nosr)
			ctr++;
		CHECK(ec.rct_mem_ctr == ctr, "RCT-mem position in the block");
		CHECK(ec.rct_mem_count == cnt, "RCT-mem count");
		CHECK(ec.rct_mem_nosr == nosr, "RCT-mem block length");
		CHECK(ec.in_recovery == o.in_recovery, "recovery mark restored");
		CHECK(ec.startup_state == o.startup_state, "startup stage restored");
		CHECK((ec.health_failure & mask) ==
		      (((o.health_failure | (rec ? g_rec_hf : 0u)) & mask) |
		       (perm ? JENT_RCT_MEM_FAILURE_PERMANENT : 0u) |
		       (inter ? JENT_RCT_MEM_FAILURE : 0u)), "RCT-mem verdict");
		WITNESS_IF(rec, "recovery");
		WITNESS_IF(perm, "permanent");
		WITNESS_IF(inter, "intermittent in recovery");
	}
#endif
}

#if PART == P_STUCK
/* two measurements in a row: the second is judged by the true deltas before it */
HARNESS(h_two)
{
	static struct rand_data ec, o;
	uint64_t a, b, d2, d3;
	unsigned int stuck, ret;

	setup(&ec, &a);
	b = IN64();
	o = ec;
	/* the history starts anew with each lag window */
	ASSUME(ec.lag_observations < (1u << 17) - 1);
	(void)jent_stuck(&ec, a);
	ret = jent_stuck(&ec, b);
	d2 = b - a;
	d3 = d2 - (a - hist(&o, 0));
	stuck = b == 0 || d2 == 0 || d3 == 0;
	CHECK(!!ret == stuck, "the verdict on the second of two measurements");
	WITNESS_IF(stuck && a == 0, "after a zero delta");
	WITNESS_IF(!stuck, "not stuck");
}
#endif

/* --- the cutoffs --------------------------------------------------------- */
static const unsigned int t_apt[20] =
	{ 325, 422, 459, 477, 488, 494, 499, 502, 505, 507,
	  508, 509, 510, 511, 512, 512, 512, 512, 512, 512 };
static const unsigned int t_apt_p[20] =
	{ 355, 447, 479, 494, 502, 507, 510, 512, 512, 512,
	  512, 512, 512, 512, 512, 512, 512, 512, 512, 512 };
static const unsigned int t_apt_n[20] =
	{  17,  71, 136, 191, 236, 272, 301, 325, 345, 361,
	  375, 388, 398, 407, 415, 422, 429, 434, 439, 444 };
static const unsigned int t_apt_pn[20] =
	{  26,  92, 162, 221, 267, 303, 332, 355, 375, 390,
	  404, 415, 425, 433, 440, 447, 453, 458, 462, 466 };
static const unsigned int t_mem_n[20] =
	{ 4,    46,   134,  255,  399,  560,  733,  856,  963,  1070,
	  1177, 1284, 1391, 1498, 1605, 1712, 1819, 1926, 2033, 2140 };
static const unsigned int t_mem_pn[20] =
	{ 5,    50,   142,  265,  410,  572,  746,  857,  964,  1071,
	  1178, 1285, 1392, 1499, 1606, 1713, 1820, 1927, 2034, 2141 };
static const unsigned int t_lg[20] =
	{ 66443,  93504, 104761, 110875, 114707, 117330, 119237, 120686, 121823,
	 122739, 123493, 124124, 124660, 125120, 125520, 125871, 126181, 126457,
	 126704, 126926 };
static const unsigned int t_lgp[20] =
	{ 66876,  93896, 105108, 111188, 114993, 117596, 119486, 120920, 122045,
	 122951, 123696, 124318, 124847, 125301, 125695, 126041, 126346, 126617,
	 126860, 127079 };
static const unsigned int t_ll[20] =
	{  38,  75, 111, 146, 181, 215, 250, 284, 318, 351,
	  385, 419, 452, 485, 518, 551, 584, 617, 650, 683 };
static const unsigned int t_llp[20] =
	{  60, 119, 177, 234, 291,  347,  404,  460,  516,  571,
	  627, 683, 738, 793, 848,  903,  958, 1013, 1068, 1123 };

HARNESS(h_cutoffs)
{
	static struct rand_data ec, o;
	unsigned int osr = sym_osr(), ntg1 = INBIT(), i = osr - 1, k;
	unsigned int c = 30 * osr, p = 60 * osr;

	memset(&ec, 0, sizeof(ec));
	sym_health(&ec);
	sym_cutoffs(&ec);
	ec.osr = osr;
	ec.startup_state = sym_startup();
	ec.is_fips_enabled = INBIT();
	ec.selftest_failed = INBIT();
	o = ec;
	jent_health_init(&ec, ntg1 ? jent_health_init_type_ntg1 :
				     jent_health_init_type_common);

#if PART == P_RCT
	{
		if (ntg1) { c = (c + 7) / 8; p = (p + 7) / 8; }
		CHECK(ec.rct_cutoff == c, "RCT cutoff");
		CHECK(ec.rct_cutoff_permanent == p, "RCT permanent cutoff");
		CHECK(ec.rct_cutoff > 0 && ec.rct_cutoff < ec.rct_cutoff_permanent, "RCT order");
		CHECK(ec.rct_count == 0, "RCT starts a new run");
		WITNESS_IF(ntg1, "ntg1");
	}
#endif
#if PART == P_APT
	{
		CHECK(ec.apt_cutoff == (ntg1 ? t_apt_n[i] : t_apt[i]), "APT cutoff");
		CHECK(ec.apt_cutoff_permanent == (ntg1 ? t_apt_pn[i] : t_apt_p[i]), "APT permanent cutoff");
		CHECK(ec.apt_cutoff > 1 && ec.apt_cutoff <= ec.apt_cutoff_permanent &&
		      ec.apt_cutoff_permanent <= 512, "APT order");
		CHECK(ec.apt_base_set == o.apt_base_set && ec.apt_count == o.apt_count &&
		      ec.apt_base == o.apt_base && ec.apt_observations == o.apt_observations,
		      "APT window continues");
		WITNESS_IF(ntg1, "ntg1");
	}
#endif
#if PART == P_LAG
	{
		CHECK(ec.lag_global_cutoff == t_lg[i], "LAG global cutoff");
		CHECK(ec.lag_global_cutoff_permanent == t_lgp[i], "LAG global permanent cutoff");
		CHECK(ec.lag_local_cutoff == t_ll[i], "LAG local cutoff");
		CHECK(ec.lag_local_cutoff_permanent == t_llp[i], "LAG local permanent cutoff");
		CHECK(ec.lag_observations == o.lag_observations &&
		      ec.lag_prediction_success_run == o.lag_prediction_success_run &&
		      ec.lag_prediction_success_count == o.lag_prediction_success_count,
		      "LAG window continues");
		WITNESS("end");
	}
#endif
#if PART == P_MEM
	{
		CHECK(ec.rct_mem_cutoff == (ntg1 ? t_mem_n[i] : 107 * osr), "RCT-mem cutoff");
		CHECK(ec.rct_mem_cutoff_permanent == (ntg1 ? t_mem_pn[i] : 107 * osr + 1), "RCT-mem permanent cutoff");
		CHECK(ec.rct_mem_cutoff > 0 && ec.rct_mem_cutoff < ec.rct_mem_cutoff_permanent, "RCT-mem order");
		WITNESS_IF(ntg1, "ntg1");
	}
#endif
	CHECK(ec.health_failure == o.health_failure, "setting the cutoffs withdraws no failure");
	CHECK(ec.selftest_failed == o.selftest_failed && ec.is_fips_enabled == o.is_fips_enabled &&
	      ec.startup_state == o.startup_state && ec.osr == o.osr, "mode unchanged");
	for (k = 0; k < 8; k++)
		CHECK(ec.lag_delta_history[k] == o.lag_delta_history[k], "history unchanged");
}

/* --- what a reallocated collector inherits -------------------------------- */
HARNESS(h_dup)
{
	static struct rand_data ec, old, o;
	unsigned int i;

	memset(&ec, 0, sizeof(ec));
	memset(&old, 0, sizeof(old));
	sym_health(&old);
	sym_cutoffs(&old);
	ec.osr = sym_osr();
	sym_cutoffs(&ec);
	/* fresh out of the allocation: no sample seen with these tests yet */
	o = old;
	jent_apt_duplicate(&ec, &old);
	jent_rct_duplicate(&ec);
	jent_lag_duplicate(&ec, &old);
	jent_rct_mem_duplicate(&ec, &old);

	if (PART == P_RCT)
		CHECK(ec.rct_count == ec.rct_cutoff, "RCT continues at its new intermittent cutoff");
	if (PART == P_APT && o.apt_observations) {
		CHECK(ec.apt_base_set, "APT continues in a window");
		CHECK(ec.apt_base == o.apt_base && ec.apt_count == ec.apt_cutoff &&
		      ec.apt_observations == o.apt_observations, "APT continues at its new cutoff");
	}
#if PART == P_LAG
	{
		CHECK(ec.lag_prediction_success_run == o.lag_prediction_success_run &&
		      ec.lag_prediction_success_count == o.lag_prediction_success_count &&
		      ec.lag_best_predictor == o.lag_best_predictor &&
		      ec.lag_observations == o.lag_observations, "LAG counters continue");
		for (i = 0; i < 8; i++)
			CHECK(ec.lag_scoreboard[i] == o.lag_scoreboard[i] &&
			      ec.lag_delta_history[i] == o.lag_delta_history[i], "LAG history continues");
	}
#endif
	if (PART == P_MEM)
		CHECK(ec.rct_mem_count == o.rct_mem_cutoff, "RCT-mem continues at the cutoff");
	WITNESS("end");
}

/* --- external time stamps judged by the same tests ------------------------ */
HARNESS(h_timestamp)
{
	static struct rand_data ec, ref;
	uint64_t ts, delta, gcd, r1;
	unsigned int ret, rret;
	static const unsigned int s[4] = { 0, 1, 10, 63 };

	setup(&ec, &delta);
	ASSUME(!(ec.rct_mem_count + 1 >= ec.rct_mem_cutoff));
	/* division by an arbitrary divisor is out of reach for bit-blasting:
	 * the common divisors 0 (unset), 1 and powers of two */
	r1 = IN8() & 3;
	gcd = INBIT() ? 0 : (uint64_t)1 << s[r1];
	ec.jent_common_timer_gcd = gcd;
	ec.prev_time = IN64();
	ts = IN64();
	ref = ec;
	delta = ts - ref.prev_time;
	if (gcd)
		delta >>= s[r1];
	rret = jent_stuck(&ref, delta);
	ret = jent_health_insert_timestamp(&ec, ts);
	CHECK(!!ret == !!rret, "same stuck verdict for a time stamp as for its delta");
	CHECK(ec.health_failure == ref.health_failure, "same health verdict");
	CHECK(ec.prev_time == ts, "time stamp remembered");
	WITNESS("end");
}

/* --- recovery right after a measurement: the window is not forgotten ------- */
HARNESS(h_stepdup)
{
	static struct rand_data ec, o, nec;
	uint64_t delta, base;

	setup(&ec, &delta);
	memset(&nec, 0, sizeof(nec));
	nec.osr = sym_osr();
	sym_cutoffs(&nec);
	o = ec;
	base = o.apt_base_set ? o.apt_base : delta;
	(void)jent_stuck(&ec, delta);
	jent_apt_duplicate(&nec, &ec);
	CHECK(nec.apt_base_set, "APT continues in a window after any measurement");
	CHECK(nec.apt_base == base, "APT continues with the reference value in use");
	CHECK(nec.apt_count == nec.apt_cutoff, "APT continues at its new cutoff");
	WITNESS_IF(o.apt_base_set && o.apt_observations == 511, "window end");
	WITNESS_IF(!o.apt_base_set, "window start");
}
