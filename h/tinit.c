/*
 * The startup test of the timer: real base.c, timer.c and health.c, the single
 * measurement is a stub. 1 + 100 + 1024 measurements, of which the ones at the
 * interesting positions have symbolic outcomes; BASE of the others are stuck,
 * BACK run backwards.
 */
#define W_NEC 2
#include "world.h"
#ifndef BASE
# define BASE 0
#endif
#ifndef FLAGS
# define FLAGS 0
#endif
#ifndef OSR
# define OSR 0
#endif
#ifndef BACK
# define BACK 0
#endif

int jent_sha3_tester(void) { return 0; }
int jent_gcd_selftest(unsigned int flags) { (void)flags; return 0; }
void jent_random_data(struct rand_data *e) { (void)e; CHECK(0, "no block is generated by the timer test"); }
void jent_read_random_block(struct rand_data *e, char *dst, size_t len) { (void)e; (void)dst; (void)len; }
uint32_t jent_memsize(unsigned int flags) { (void)flags; return 4096; }

/* --- history of deltas ------------------------------------------------------- */
static uint64_t hist_obj[1024];
static unsigned int hist_live, hist_fail, analyzed;
static int gcd_verdict;
static size_t an_osr;
uint64_t *jent_gcd_init(size_t nelem, unsigned int flags)
{
	(void)flags;
	CHECK(nelem == 1024, "room for all measurements");
	if (hist_fail)
		return NULL;
	hist_live++;
	return hist_obj;
}
void jent_gcd_fini(uint64_t *h, size_t nelem)
{
	CHECK(h == hist_obj && nelem == 1024 && hist_live == 1, "the history is released once, completely");
	hist_live--;
}

/* --- the measurements --------------------------------------------------------- */
#define NPOS 6
static const int pos[NPOS] = { 0, 1, 101, 102, 500, 1124 };	/* call numbers with symbolic outcomes */
static uint64_t s_delta[NPOS], s_time[NPOS];
static uint8_t s_stuck[NPOS], s_back[NPOS];
static unsigned int calls, m_stuck, m_back, m_zero, m_notime, m_stop;
static uint64_t tick;
static unsigned int s_hf, osr_seen;
unsigned int jent_measure_jitter(struct rand_data *e, uint64_t loop, uint64_t *ret_delta)
{
	unsigned int i, at = NPOS, stuck = 0, back = 0, zero = 0;
	uint64_t d = 3 + calls, start = e->prev_time;

	CHECK(w_is_live(e) && loop == 0, "measures its collector as in operation");
	CHECK(!e->enable_notime || w_thread_of == e, "the timer thread runs during the test");
	CHECK(e->is_fips_enabled, "the health tests are in force");
	CHECK(!m_stop, "nothing is measured after a fatal outcome");
	CHECK(calls < 1125, "bounded number of measurements");
#if FAULTS
	/* only the way there: the first measurement yields no time */
	s_time[0] = 0;
	ASSUME(calls < 2);
#endif
	ASSUME(calls < 1125);
	for (i = 0; i < NPOS; i++)
		if (pos[i] == (int)calls)
			at = i;
	if (calls == 0) {
		/* priming: any time stamp */
		e->prev_time = s_time[0];
		m_notime = !s_time[0];
		calls++;
		return s_stuck[0];
	}
	tick++;
	if (at < NPOS) {
		d = s_delta[at];
		stuck = s_stuck[at];
		back = s_back[at];
		zero = !d;
		e->prev_time = s_time[at] ? (back ? 5 : tick << 4) : 0;
		if (!s_time[at])
			m_notime = 1;
	} else {
		if (calls >= 200 && calls < 200 + BASE)
			stuck = 1;
		if (calls >= 1100 && calls < 1100 + BACK)
			back = 1;
		e->prev_time = back ? 4 : tick << 4;
	}
	if (calls > 100) {
		m_stuck += stuck;
		m_back += !(e->prev_time > start);
	}
	if (zero)
		m_zero = 1;
	if (m_notime || m_zero)
		m_stop = 1;
	if (calls == 1124)
		e->health_failure |= s_hf;
	osr_seen = e->osr;
	calls++;
	if (ret_delta)
		*ret_delta = d;
	return stuck;
}
int jent_gcd_analyze(uint64_t *h, size_t nelem, size_t osr)
{
	unsigned int i;

	CHECK(h == hist_obj && hist_live == 1 && nelem == 1024, "the full history is analyzed");
	for (i = 2; i < NPOS; i++)
		CHECK(hist_obj[pos[i] - 101] == s_delta[i], "every delta after the warm-up enters the history, in order");
	for (i = 5; i < 1024; i += 61)
		CHECK(hist_obj[i] == i + 101 + 3, "every delta after the warm-up enters the history, in order");
	analyzed++;
	an_osr = osr;
	return gcd_verdict;
}

HARNESS(h_tinit)
{
	unsigned int i;
#if FAULTS
	unsigned int flags = IN32(), osr = IN32();
#else
	unsigned int flags = FLAGS, osr = OSR;
#endif
	int ret, expect;

	w_cache_l1 = 32768;
	w_cache_all = 1u << 20;
	w_gcd = 1;
	w_fips = INBIT();
	for (i = 0; i < NPOS; i++) {
		s_delta[i] = IN64();
		s_time[i] = INBIT();
		s_stuck[i] = INBIT();
		s_back[i] = INBIT();
	}
	s_hf = IN32();
	gcd_verdict = (int)(IN8() & 31);
#if FAULTS
	hist_fail = INBIT();
	w_fail_at = IN8();
	w_thread_fail_at = IN8();
	w_ncpu = (long)(IN8() & 3);
#endif
#if INTERNAL
	flags &= ~(unsigned int)(JENT_NTG1 | JENT_DISABLE_INTERNAL_TIMER);
	flags |= JENT_FORCE_INTERNAL_TIMER;
#else
	flags &= ~(unsigned int)JENT_FORCE_INTERNAL_TIMER;
	flags |= JENT_DISABLE_INTERNAL_TIMER;
#endif
	ASSUME(osr <= JENT_MAX_OSR);

	ret = jent_entropy_init_ex(osr, flags);

	CHECK(w_live == 0 && hist_live == 0, "the test leaves no memory behind");
	CHECK(!w_thread_of, "the test leaves no thread behind");
	if (calls == 0) {
		CHECK(ret != 0, "nothing measured, no success");
#if FAULTS
		CHECK(ret == EMEM, "lack of resources is reported");
		WITNESS_IF(hist_fail, "no history");
		WITNESS_IF(w_fail_at == 2, "no pool");
#else
		CHECK(0, "the timer is measured");
#endif
		return;
	}
	if (m_notime)
		expect = ENOTIME;
	else if (m_zero)
		expect = ECOARSETIME;
	else if (m_back > 3)
		expect = ENOMONOTONIC;
	else if (s_hf)
		expect = s_hf & (JENT_RCT_FAILURE | JENT_RCT_FAILURE_PERMANENT) ? ERCT : EHEALTH;
	else if (gcd_verdict)
		expect = gcd_verdict;
	else if (m_stuck > 921)
		expect = ESTUCK;
	else
		expect = 0;
	CHECK((ret == 0) == (expect == 0), "the timer passes exactly when every criterion is met");
	CHECK(ret == expect, "the verdict names the criterion that failed");
	if (!ret) {
		CHECK(calls == 1125 && analyzed == 1, "all measurements are taken");
		CHECK(an_osr == osr_seen && osr_seen == (osr < JENT_MIN_OSR ? JENT_MIN_OSR : osr), "the oversampling rate asked for is the one tested");
	}
	WITNESS_IF(ret == ENOTIME && m_zero == 0, "no time");
#if !FAULTS
	WITNESS_IF(ret == ECOARSETIME && m_zero && calls < 1125, "coarse time");
	WITNESS_IF(ret == ERCT, "repetition");
#endif
}
