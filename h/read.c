/*
 * jent_read_entropy(): real base.c, timer.c, health.c and the block reader of
 * noise.c. The noise collection and the DRBG are replaced by stubs that do
 * anything their contracts allow.
 */
#include "ec.h"

#define P_READ 1
#define P_HEALTH 2
#define P_SELF 3
#ifndef PART
# define PART P_READ
#endif
#ifndef MAXBLK
# define MAXBLK 3
#endif
#define MAXLEN (MAXBLK * 32)
#define GUARD 8

static struct rand_data ec;
static uint8_t hash_state_obj[8];
static uint8_t buf[MAXLEN + GUARD];
/* one byte of the buffer, chosen by the solver, is followed through the call */
static size_t probe;
static uint8_t probe_orig, probe_new;
static unsigned int calls_rd, blocks, produced, started, stopped;
static uint32_t hf_at[MAXBLK + 2];	/* failures found while collecting block n */
static uint8_t st_at[MAXBLK + 2];	/* self test run from outside meanwhile */
static int start_ret;
static char *g_data;

/* --- environment ---------------------------------------------------------- */
void jent_random_data(struct rand_data *e)
{
	CHECK(e == &ec, "collects for the collector it was given");
	CHECK(calls_rd < MAXBLK + 1, "no collection after the request is served");
	ec.health_failure |= hf_at[calls_rd];
	if (st_at[calls_rd])
		ec.selftest_failed = 1;
	calls_rd++;
}

void jent_drbg_generate_block(struct jent_sha_ctx *ctx, uint8_t *dst, size_t dst_len)
{
	CHECK((void *)ctx == (void *)hash_state_obj, "generates from the entropy pool");
	CHECK(dst_len >= 1 && dst_len <= 32, "a block is at most 32 bytes");
	CHECK(dst == (uint8_t *)g_data + produced, "blocks are laid end to end");
	CHECK(calls_rd == blocks + 1, "every block has its own noise collection");
#if PART == P_HEALTH
	CHECK(!(ec.is_fips_enabled && ec.health_failure), "no output while a health failure stands");
#endif
#if PART == P_SELF
	/* the latch may only rise during the collection for this block */
	{
		unsigned int k, up = 0;
		for (k = 0; k + 1 < calls_rd; k++)
			up |= st_at[k];
		CHECK(!up, "no output after the self test failed");
	}
#endif
	ASSUME(produced + dst_len <= MAXLEN);
	if (probe >= produced && probe < produced + dst_len)
		dst[probe - produced] = probe_new;
	produced += (unsigned int)dst_len;
	blocks++;
}

int jent_notime_thread_create(struct jent_notime_ctx *ctx, jent_notime_start_routine r, void *arg)
{
	CHECK(arg == &ec, "timer thread is handed its collector");
	CHECK(started == stopped, "one timer thread at a time");
	if (start_ret)
		return start_ret;
	started++;
	return 0;
}
void jent_notime_thread_join(struct jent_notime_ctx *ctx)
{
	CHECK(ec.notime_interrupt, "timer thread is told to stop before the join");
	if (started > stopped)
		stopped++;
}
int jent_thread_pin_to_cpu(unsigned long cpu) { return 0; }
void jent_yield(void) { }
long jent_ncpu(void) { return 2; }
long jent_cpu_highest(void) { return 1; }
void *jent_zalloc(size_t l, unsigned int f) { return NULL; }
void jent_zfree(void *p, size_t l) { }
void jent_get_nstime(uint64_t *out) { *out = 0; }

/* a failure callback that looks but does not touch */
static unsigned int cb_calls, cb_last;
static struct rand_data *cb_ec;
static void cb(struct rand_data *e, unsigned int hf) { cb_calls++; cb_last = hf; cb_ec = e; }

static struct jent_notime_ctx tctx;
static void setup(void)
{
	unsigned int i;

	memset(&ec, 0, sizeof(ec));
	ec.hash_state = hash_state_obj;
	ec.osr = sym_osr();
	ec.flags = IN32();
	ec.is_fips_enabled = INBIT();
	ec.enable_notime = INBIT();
	ec.notime_thread_ctx = &tctx;
	ec.health_failure = IN32();
	ec.startup_state = sym_startup();
	ec.read_invocations = IN64();
	ec.bytes_output = IN64();
	ec.reinit_count = IN32();
	start_ret = (int)IN32();
	for (i = 0; i < MAXBLK + 2; i++) {
		hf_at[i] = IN32();
		st_at[i] = INBIT();
	}
	probe = IN8();
	ASSUME(probe < MAXLEN + GUARD);
	probe_new = IN8();
	probe_orig = IN8();
	buf[probe] = probe_orig;
	/* only the documented failure bits exist */
	ASSUME(!(ec.health_failure & ~0x000f000fu));
	for (i = 0; i < MAXBLK + 2; i++)
		ASSUME(!(hf_at[i] & ~0x000f000fu));
}

/* documented mapping of failures to the error code, permanent ones first */
static ssize_t err_of(unsigned int hf)
{
	return hf & JENT_RCT_FAILURE_PERMANENT ? JENT_ERR_RCT_PERMANENT :
	       hf & JENT_APT_FAILURE_PERMANENT ? JENT_ERR_APT_PERMANENT :
	       hf & JENT_LAG_FAILURE_PERMANENT ? JENT_ERR_LAG_PERMANENT :
	       hf & JENT_RCT_MEM_FAILURE_PERMANENT ? JENT_ERR_RCT_MEM_PERMANENT :
	       hf & JENT_RCT_FAILURE ? JENT_ERR_RCT :
	       hf & JENT_APT_FAILURE ? JENT_ERR_APT :
	       hf & JENT_RCT_MEM_FAILURE ? JENT_ERR_RCT_MEM : JENT_ERR_LAG;
}

#if PART == P_READ
HARNESS(h_read)
{
	size_t len = IN64();
	uint64_t inv, bytes;
	unsigned int stop = MAXBLK + 2, n, want_blocks;
	ssize_t ret;
	uint8_t null_ec = INBIT(), null_data = INBIT();

	setup();
	g_data = null_data ? NULL : (char *)buf;
	inv = ec.read_invocations;
	bytes = ec.bytes_output;
	/* the first block that is refused, if any */
	{
		unsigned int hf = ec.health_failure;
		for (n = 0; n < MAXBLK + 2; n++) {
			hf |= hf_at[n];
			if (stop == MAXBLK + 2 &&
			    ((ec.is_fips_enabled && hf) || (n && st_at[n - 1])))
				stop = n;
		}
	}
	/* a request larger than the model's buffer is stopped by a failure */
	ASSUME(len <= MAXLEN || stop <= MAXBLK - 1);

	ret = jent_read_entropy(null_ec ? NULL : &ec, g_data, len);

	CHECK(started == stopped, "the timer thread never outlives the call");
	if (null_ec || (null_data && len)) {
		CHECK(ret == JENT_ERR_EINVAL, "missing arguments are refused");
		CHECK(!calls_rd && !started, "a refused request touches nothing");
		CHECK(ec.read_invocations == inv && ec.bytes_output == bytes, "refused requests are not counted");
		WITNESS_IF(null_data && !null_ec, "NULL buffer refused");
	} else if (ec.enable_notime && start_ret) {
		CHECK(ret == JENT_ERR_NOTIME, "no timer, no output");
		CHECK(!calls_rd, "no collection without a timer");
		CHECK(ec.read_invocations == inv && ec.bytes_output == bytes, "failed requests are not counted");
		WITNESS("timer failure");
	} else {
		want_blocks = (unsigned int)(len > MAXLEN ? MAXBLK + 1 : (len + 31) / 32);
		if (stop >= want_blocks) {
			CHECK(ret == (ssize_t)len, "a served request returns its length");
			CHECK(produced == len, "exactly the requested bytes are generated");
			CHECK(ec.read_invocations == inv + 1 && ec.bytes_output == bytes + len, "accounting of a served request");
			CHECK(calls_rd == want_blocks, "one collection per 32 bytes");
			WITNESS_IF(len == MAXLEN, "full request served");
			WITNESS_IF(len == 0 && null_data, "empty request served");
			WITNESS_IF(len % 32, "partial last block");
		} else {
			CHECK(ret < 0, "an interrupted request is an error");
			CHECK(produced == stop * 32, "nothing is generated after the failure");
			CHECK(ec.read_invocations == inv && ec.bytes_output == bytes, "failed requests are not counted");
			WITNESS_IF(len > MAXLEN, "huge request interrupted");
			WITNESS_IF(stop == 2, "failure at the third block");
		}
		if (probe < produced)
			CHECK(buf[probe] == probe_new, "the caller gets the generated bytes");
		else
			CHECK(buf[probe] == probe_orig, "memory beyond the generated bytes is untouched");
	}
	if (null_data || null_ec)
		CHECK(buf[probe] == probe_orig, "nothing written without a buffer");
}
#endif

#if PART == P_HEALTH
HARNESS(h_health)
{
	size_t len = IN8();
	unsigned int hf, n, fail = MAXBLK + 2, has_cb = INBIT(), fips, want;
	ssize_t ret, ret2;

	ASSUME(len >= 1 && len <= MAXLEN);
	setup();
	start_ret = 0;
	for (n = 0; n < MAXBLK + 2; n++)
		st_at[n] = 0;
	g_data = (char *)buf;
	fips = ec.is_fips_enabled;
	if (has_cb)
		CHECK(jent_set_fips_failure_callback(cb) == 0, "callback accepted before the first initialization");
	hf = ec.health_failure;
	want = (unsigned int)((len + 31) / 32);
	for (n = 0; n < MAXBLK; n++)
		if (n < want && fail == MAXBLK + 2) {
			hf |= hf_at[n];
			if (fips && hf)
				fail = n;
		}

	ret = jent_read_entropy(&ec, g_data, len);

	if (fail < MAXBLK + 2) {
		CHECK(ret == err_of(hf), "the error names the failed test, permanent failures first");
		CHECK(ec.health_failure == hf, "the failure stays recorded");
		CHECK(produced == fail * 32, "no byte of the failing block is released");
		if (has_cb) {
			CHECK(cb_calls >= 1 && cb_last == hf && cb_ec == &ec, "the callback hears of the failure");
			WITNESS("callback called");
		}
		/* and it stays that way */
		n = produced;
		calls_rd = 0; blocks = 0; g_data = (char *)buf + n;
		hf |= hf_at[0];
		g_data -= n;	/* the stub adds what was produced before */
		ret2 = jent_read_entropy(&ec, g_data + n, 1 + len % 32);
		CHECK(ret2 == err_of(hf), "a failed collector keeps failing");
		CHECK(produced == n, "a failed collector yields nothing");
		WITNESS_IF(ret == JENT_ERR_LAG, "lag");
		WITNESS_IF(ret == JENT_ERR_RCT_MEM_PERMANENT, "memory permanent");
		WITNESS_IF(ret == JENT_ERR_RCT_MEM && fail == 2, "memory at the third block");
	} else {
		CHECK(ret == (ssize_t)len, "served when no failure stands, or the tests do not apply");
		CHECK(cb_calls == 0, "no callback without a failure");
		WITNESS_IF(!fips && hf_at[0], "failures are not enforced outside FIPS mode");
		WITNESS_IF(fips, "FIPS success");
	}
}
#endif

#if PART == P_SELF
HARNESS(h_self)
{
	size_t len = IN8();
	unsigned int n, up = INBIT(), first, want;
	ssize_t ret;

	ASSUME(len >= 1 && len <= MAXLEN);
	setup();
	start_ret = 0;
	ec.selftest_failed = up;
	g_data = (char *)buf;
	want = (unsigned int)((len + 31) / 32);

	ret = jent_read_entropy(&ec, g_data, len);

	if (up) {
		CHECK(ret == JENT_ERR_SELFTEST, "a failed self test refuses every request");
		CHECK(calls_rd == 0 && produced == 0, "nothing is collected or generated");
		CHECK(ec.selftest_failed, "the latch stays");
		WITNESS_IF(!ec.is_fips_enabled, "outside FIPS mode as well");
	} else {
		first = MAXBLK + 2;
		for (n = 0; n < MAXBLK; n++)
			if (st_at[n] && first == MAXBLK + 2)
				first = n;
		if (ret == (ssize_t)len)
			CHECK(first == MAXBLK + 2 || first + 1 >= want, "success only when the latch rose with the last block at the earliest");
		else
			CHECK(ret == JENT_ERR_SELFTEST ? first < MAXBLK + 2 : ec.is_fips_enabled, "no other reason to fail");
		if (ret == JENT_ERR_SELFTEST)
			WITNESS("latch raised during the request");
		if (first < MAXBLK + 2 && calls_rd > first) {
			n = produced;
			calls_rd = blocks = 0;
			ret = jent_read_entropy(&ec, (char *)buf, len);
			CHECK(ret == JENT_ERR_SELFTEST && produced == n, "once raised, the latch refuses the next request");
		}
	}
}

static int kat_ret;
int jent_sha3_tester(void) { return kat_ret; }

/* the self test itself: a history of two runs, then a request */
HARNESS(h_selftest)
{
	unsigned int up, n, bound, fail = 0, hf;
	struct rand_data o;
	ssize_t ret;
	int r;

	setup();
	start_ret = 0;
	for (n = 0; n < MAXBLK + 2; n++)
		st_at[n] = hf_at[n] = 0;
	up = INBIT() ? IN32() : 0;
	ec.selftest_failed = up;
	hf = ec.health_failure;
	g_data = (char *)buf;
	for (n = 0; n < 2; n++) {
		kat_ret = (int)IN32();
		bound = INBIT();
		o = ec;
		r = jent_selftest(bound ? &ec : NULL);
		CHECK(!r == !kat_ret, "the self test reports its own result");
		CHECK(!kat_ret || r == EHASH, "as a failure of the hash");
		if (kat_ret && bound)
			fail = 1;
		CHECK(!!ec.selftest_failed == (up || fail), "a failed run marks the collector it is bound to, a passing one clears nothing");
		CHECK(ec.health_failure == o.health_failure && ec.is_fips_enabled == o.is_fips_enabled &&
		      ec.osr == o.osr && ec.flags == o.flags && ec.startup_state == o.startup_state &&
		      ec.read_invocations == o.read_invocations && ec.bytes_output == o.bytes_output, "nothing else changes");
	}
	ret = jent_read_entropy(&ec, g_data, 5);
	if (up || fail) {
		CHECK(ret == JENT_ERR_SELFTEST && !produced, "a failed self test refuses every request");
	} else {
		CHECK(ret == 5 || (ec.is_fips_enabled && hf), "a passing one refuses none");
	}
	WITNESS_IF(fail && !up, "failed run");
	WITNESS_IF(!fail && !up, "passing");
	WITNESS_IF(kat_ret && !fail, "unbound failure");
}
#endif
