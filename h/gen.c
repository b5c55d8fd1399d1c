/*
 * jent_random_data(): how many measurements back a block, in which order the
 * noise sources are tested at startup, and what a health failure does to it.
 * Real noise.c loops and health.c; the three measurement functions are stubs.
 */
#include "ec.h"
/*
 * The block loop runs 768 to 6420 times, so the oversampling rate and the
 * pattern of stuck measurements are split into one branch each (path splitting
 * by the symbolic executor); everything else stays symbolic in every branch.
 */
#ifndef OSRLO
# define OSRLO 3
# define OSRHI 3
#endif
#ifndef NBITS
# define NBITS 4
#endif
#ifndef FIPS
# define FIPS 1
#endif
#ifndef ST
# define ST 0
#endif

static struct rand_data ec;
static unsigned int calls[3], good[3], total, order_bad, primed;
static unsigned int nstuck, first_stuck;
static unsigned int sbits, f1, fbits, g_need;

static unsigned int measure(unsigned int src, struct rand_data *e, uint64_t loop_cnt)
{
	unsigned int stuck = 0, c = calls[src];

	CHECK(e == &ec, "measures for its collector");
	CHECK(loop_cnt == 0, "generation uses the collector's own loop counts");
	/* stuck or not: free at the beginning, in the middle and around the
	 * end of a block, elsewhere the measurement is not stuck */
#ifdef SCALED
	if (nstuck < SCALED)
		stuck = INBIT();
	nstuck += stuck;
	if (total == 0)
		first_stuck = stuck;
	/* the scale has no effect when the code takes the numbers from elsewhere */
	if (src < 2 || total > 0)
		ASSUME(ec.rct_mem_nosr < 128);
#else
	if (c == 0)
		stuck = sbits & 1;
	else if (c == g_need)
		stuck = sbits >> 1 & 1;
	else if (c == 1)
		stuck = sbits >> 2 & 1;
	else if (c == 400)
		stuck = sbits >> 3 & 1;
#endif
	if (total == f1)
		ec.health_failure |= fbits;
#ifdef TARGET
	/* how many measurements the block is going to have is settled before the first */
	if (src < 2 || total > 0)
		CHECK(ec.rct_mem_nosr == g_need, "the number of measurements follows from the oversampling rate");
	WITNESS_IF(total == 1 && src == 0 && ec.osr == 20, "memory stage");
	WITNESS_IF(total == 1 && src == 1 && ec.osr == 3, "hash stage");
	WITNESS_IF(total == 2 && src == 2 && ec.osr == 17, "both");
	ASSUME(total < 2);
#endif
	total++;
	calls[src]++;
	if (!stuck)
		good[src]++;
	/* the sources are exercised one after the other */
	if ((src == 0 && (calls[1] || calls[2])) || (src == 1 && calls[2]))
		order_bad = 1;
	return stuck;
}
unsigned int jent_measure_jitter_ntg1_memaccess(struct rand_data *e, uint64_t l, uint64_t *d)
{ if (d) *d = 1; return measure(0, e, l); }
unsigned int jent_measure_jitter_ntg1_sha3(struct rand_data *e, uint64_t l, uint64_t *d)
{ if (d) *d = 1; return measure(1, e, l); }
unsigned int jent_measure_jitter(struct rand_data *e, uint64_t l, uint64_t *d)
{ if (d) *d = 1; return measure(2, e, l); }


static unsigned int need(unsigned int osr, unsigned int fips)
{
	/* (256 bits, plus the 64 bit safety margin of a conditioned FIPS block)
	 * times the oversampling rate, rounded up to a multiple of three */
#ifdef SCALED
	unsigned int n = (DATA_SIZE_BITS + (fips ? ENTROPY_SAFETY_FACTOR : 0)) * osr;
#else
	unsigned int n = (256 + (fips ? 65 : 0)) * osr;
#endif

	return (n + 2) / 3 * 3;
}

static void setup(unsigned int osr, unsigned int bits, unsigned int inrec)
{
	memset(&ec, 0, sizeof(ec));
	ec.health_failure = IN32();
	ec.in_recovery = inrec;
	ec.rct_mem_ctr = IN16();
	ec.rct_mem_nosr = IN16();
	ec.rct_mem_count = IN16();
	ec.rct_count = IN32();
	ec.flags = IN32();
	ec.memaccessloops = IN32();
	ec.hashloopcnt = IN32();
	ec.osr = osr;
	sbits = bits;
	f1 = 0xffffffff;
	memset(calls, 0, sizeof(calls));
	memset(good, 0, sizeof(good));
	total = 0;
}

static void one(unsigned int osr, unsigned int bits, unsigned int inrec)
{
	unsigned int n, hf;

	setup(osr, bits, inrec);
	ec.is_fips_enabled = FIPS;
	ec.startup_state = ST;
	hf = ec.health_failure;
	ASSUME(!hf || !FIPS);
	if (FIPS)
		ec.health_failure = hf = 0;
	g_need = n = need(osr, FIPS);

	jent_random_data(&ec);

	if (ST == jent_startup_memory) {
		CHECK(good[0] == n, "memory access noise alone fills the first startup block");
		CHECK(good[1] == n, "hash noise alone fills the second startup block");
		CHECK(calls[2] == 0, "startup does not mix the sources");
	} else if (ST == jent_startup_sha3) {
		CHECK(calls[0] == 0 && good[1] == n && calls[2] == 0, "hash stage alone");
	} else {
		CHECK(calls[0] == 0 && calls[1] == 0, "normal operation uses both sources together");
		/* the first measurement only primes the reference time stamp */
		CHECK(good[2] - !(bits & 1) == n, "measurements that are not stuck back a block");
	}
	CHECK(!order_bad, "memory before hash before both");
	CHECK(ec.startup_state == jent_startup_completed, "startup completes");
	CHECK(ec.rct_mem_nosr == n, "the memory test window spans the block");
	CHECK(ec.health_failure == hf, "no failure out of nowhere");
	CHECK(ec.in_recovery == inrec, "recovery marker unchanged");
	WITNESS("block collected");
}

HARNESS(h_count)
{
	unsigned int osr = IN8(), bits = IN8(), inrec = INBIT(), o, b;

	ASSUME(osr >= OSRLO && osr <= OSRHI && bits < (1 << NBITS));
	for (o = OSRLO; o <= OSRHI; o++)
		for (b = 0; b < (1 << NBITS); b++)
			if (osr == o && bits == b) {
				if (inrec)
					one(o, b, 1);
				else
					one(o, b, 0);
				return;
			}
}

/* A failure in FIPS mode: collection ends, the record stays. */
HARNESS(h_fail)
{
	unsigned int hf, st;

	setup(sym_osr(), 0, INBIT());
	ec.startup_state = sym_startup();
	ec.is_fips_enabled = 1;
	hf = ec.health_failure;
	fbits = IN32();
	f1 = IN32();
	ASSUME(hf || (f1 <= 3 && fbits));
	st = ec.startup_state;

	jent_random_data(&ec);

	if (hf) {
		/* at most the priming measurement of normal operation */
		CHECK(total <= 1 && !calls[0] && !calls[1], "a failed collector collects no further noise");
		CHECK((ec.health_failure & hf) == hf, "recorded failures survive");
		WITNESS_IF(st == jent_startup_memory, "failed before startup");
	} else {
		CHECK(total == f1 + 1 || (st == jent_startup_completed && f1 == 0 && total == 1), "collection ends with the failing measurement");
		CHECK(ec.health_failure == fbits, "the failure found is recorded");
		WITNESS_IF(f1 == 3 && st == jent_startup_sha3, "failure in the hash stage");
		WITNESS_IF(f1 == 3 && st == jent_startup_memory, "failure in the memory stage");
	}
}

/* The tests of the stages after the first run with the cutoffs of the mode. */
HARNESS(h_mode)
{
	static struct rand_data ref;
	unsigned int st;

	setup(sym_osr(), 0, INBIT());
	st = ec.startup_state = sym_startup();
	ASSUME(st != jent_startup_completed);
	ec.is_fips_enabled = 1;
	ec.health_failure = 0;
	sym_cutoffs(&ec);
	fbits = IN32();
	ASSUME(fbits);
	f1 = IN8();
	ASSUME(f1 <= 3);
	ref.osr = ec.osr;
	jent_health_init(&ref, (ec.flags & JENT_NTG1) ? jent_health_init_type_ntg1 : jent_health_init_type_common);
	jent_random_data(&ec);
#if ONLY == 1
	CHECK(ec.rct_cutoff == ref.rct_cutoff && ec.rct_cutoff_permanent == ref.rct_cutoff_permanent, "RCT cutoffs after startup are those of the mode and rate");
	CHECK(ec.rct_count == 0, "each stage starts a new run");
#elif ONLY == 2
	CHECK(ec.apt_cutoff == ref.apt_cutoff && ec.apt_cutoff_permanent == ref.apt_cutoff_permanent, "APT cutoffs after startup are those of the mode and rate");
#elif ONLY == 3
	CHECK(ec.lag_local_cutoff == ref.lag_local_cutoff && ec.lag_local_cutoff_permanent == ref.lag_local_cutoff_permanent &&
	      ec.lag_global_cutoff == ref.lag_global_cutoff && ec.lag_global_cutoff_permanent == ref.lag_global_cutoff_permanent, "LAG cutoffs after startup are those of the rate");
#else
	CHECK(ec.rct_mem_cutoff == ref.rct_mem_cutoff && ec.rct_mem_cutoff_permanent == ref.rct_mem_cutoff_permanent, "RCT-mem cutoffs after startup are those of the mode and rate");
#endif
	WITNESS_IF((ec.flags & JENT_NTG1) && st == jent_startup_memory, "NTG.1");
	WITNESS_IF(!(ec.flags & JENT_NTG1) && st == jent_startup_sha3, "common");
}

#ifdef TARGET
HARNESS(h_target)
{
	setup(sym_osr(), 0, INBIT());
	ec.is_fips_enabled = INBIT();
	ec.startup_state = sym_startup();
	ASSUME(!ec.health_failure || !ec.is_fips_enabled);
	g_need = need(ec.osr, ec.is_fips_enabled);
	jent_random_data(&ec);
	CHECK(0, "a block has more than two measurements");
}
#endif

#ifdef SCALED
/* every rate, stuck measurements anywhere: the same loops over smaller blocks */
HARNESS(h_scaled)
{
	unsigned int n, hf, osr = sym_osr(), inrec = INBIT();

	setup(osr, 0, inrec);
	ec.is_fips_enabled = FIPS;
	ec.startup_state = ST;
	if (FIPS)
		ec.health_failure = 0;
	hf = ec.health_failure;
	n = need(osr, FIPS);
	jent_random_data(&ec);
	if (ST == jent_startup_memory) {
		CHECK(good[0] == n, "memory access noise alone fills the first startup block");
		CHECK(good[1] == n, "hash noise alone fills the second startup block");
		CHECK(calls[2] == 0, "startup does not mix the sources");
	} else if (ST == jent_startup_sha3) {
		CHECK(calls[0] == 0 && good[1] == n && calls[2] == 0, "hash stage alone");
	} else {
		CHECK(calls[0] == 0 && calls[1] == 0, "normal operation uses both sources together");
		CHECK(good[2] - !first_stuck == n, "measurements that are not stuck back a block");
	}
	CHECK(!order_bad, "memory before hash before both");
	CHECK(ec.startup_state == jent_startup_completed, "startup completes");
	CHECK(ec.health_failure == hf, "no failure out of nowhere");
	CHECK(ec.in_recovery == inrec, "recovery marker unchanged");
	WITNESS_IF(osr == 20 && nstuck == SCALED, "block collected");
}
#endif
