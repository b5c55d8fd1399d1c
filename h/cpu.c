/* The CPUs: real arch-ncpu.c and arch-thread.c over a model of the scheduler interface. */
#ifndef _GNU_SOURCE
# define _GNU_SOURCE
#endif
#include "vp.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-arch-thread.h"
#include <sched.h>
#include <fcntl.h>
#include <unistd.h>

#define WORDS 4
static struct { uint64_t w[WORDS]; } set_obj;
static size_t set_size;
static unsigned int set_live, set_fail, set_refused;	/* set_refused: an allocation was asked for and denied */
cpu_set_t *vp_cpu_alloc(size_t n)
{
	CHECK(!set_live, "one set at a time");
	if (set_fail) {
		set_refused = 1;
		return NULL;
	}
	set_live = 1;
	set_size = (n + 63) / 64 * 8;
	set_obj.w[0] = set_obj.w[1] = set_obj.w[2] = set_obj.w[3] = 0x5555;
	return (cpu_set_t *)&set_obj;
}
void vp_cpu_free(cpu_set_t *s)
{
	CHECK(set_live && (void *)s == (void *)&set_obj, "freed once");
	set_live = 0;
}
static int bits(uint64_t v)
{
	unsigned int j;
	int n = 0;

	for (j = 0; j < 64; j++)
		n += (int)(v >> j & 1);
	return n;
}
int vp_cpu_count(size_t size, const cpu_set_t *s)
{
	unsigned int i;
	int n = 0;

	CHECK(size <= set_size && size % 8 == 0 && (const void *)s == (const void *)&set_obj, "counts its set");
	for (i = 0; i < WORDS; i++)
		if (i < size / 8)
			n += bits(set_obj.w[i]);
	return n;
}

/* --- counting -------------------------------------------------------------------- */
#ifndef MASKBITS
# define MASKBITS ~(uint64_t)0	/* CPUs of each word that may exist */
#endif
#ifndef KW
# define KW 1			/* words of the kernel's mask */
#endif
static uint64_t mask[WORDS];
static unsigned int a_err, a_calls;
static long v_onln;
static int v_errno;
int vp_sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set)
{
	unsigned int i;

	CHECK(pid == 0, "of the calling thread");
	CHECK(set_live && (void *)set == (void *)&set_obj && size <= set_size, "fits in the set");
	a_calls++;
	if (a_err) {
		errno = (int)a_err;
		return -1;
	}
	if (size < KW * 8) {
		errno = EINVAL;
		return -1;
	}
	for (i = 0; i < WORDS; i++)
		if (i < size / 8)
			set_obj.w[i] = i < KW ? mask[i] : 0;
	return 0;
}
long vp_sysconf(int name)
{
	if (name != _SC_NPROCESSORS_ONLN)
		return -1;
	if (v_onln == -1)
		errno = v_errno;
	return v_onln;
}

/* --- the list of CPUs in sysfs, where libc has no better way ----------------------- */
#ifndef TLEN
# define TLEN 5
#endif
static char txt[TLEN + 1];
static const char *rbuf;
static unsigned int tlen, tok, fd_live, intr;
int vp_open(const char *path, int flags, ...)
{
	static const char want[] = "/sys/devices/system/cpu/online";
	unsigned int i;

	for (i = 0; i < sizeof(want); i++) {
		CHECK(path[i] == want[i], "the list of online CPUs");
		if (path[i] != want[i])
			break;
	}
	CHECK((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)), "opened for reading");
	errno = ENOENT;
	fd_live = tok;
	return tok ? 5 : -1;
}
ssize_t vp_read(int fd, void *buf, size_t n)
{
	unsigned int i;

	CHECK(fd == 5 && fd_live, "reads what it opened");
	if (intr) {
		intr = 0;
		errno = EINTR;
		return -1;
	}
	ASSUME(n > TLEN);
	rbuf = buf;
	for (i = 0; i < TLEN; i++)
		if (i < tlen)
			((char *)buf)[i] = txt[i];
	return tlen;
}
int vp_close(int fd)
{
	CHECK(fd == 5 && fd_live, "closes what it opened");
	fd_live = 0;
	return 0;
}
/* the text that was read lies at rbuf and is the one at txt */
long vp_strtol(const char *s, char **end, int base)
{
	unsigned int o = (unsigned int)(s - rbuf), p = o;
	int neg = 0, any = 0;
	long v = 0;

	CHECK(base == 10, "decimal");
	CHECK(s >= rbuf && s <= rbuf + tlen, "inside the text");
	ASSUME(p <= TLEN);
	while (p < tlen && (txt[p] == ' ' || (txt[p] >= '\t' && txt[p] <= '\r')))
		p++;
	if (p < tlen && (txt[p] == '+' || txt[p] == '-'))
		neg = txt[p++] == '-';
	for (; p < tlen && txt[p] >= '0' && txt[p] <= '9'; p++) {
		any = 1;
		v = v * 10 + (txt[p] - '0');	/* texts are too short to overflow */
	}
	*end = (char *)rbuf + (any ? p : o);
	return neg ? -v : v;
}
/* numbers and ranges in ascending order, separated by commas */
static int list(long *count)
{
	unsigned int i = 0;
	long a, b;

	*count = 0;
	while (1) {
		if (i >= tlen || txt[i] < '0' || txt[i] > '9')
			return 0;
		for (a = 0; i < tlen && txt[i] >= '0' && txt[i] <= '9'; i++)
			a = a * 10 + (txt[i] - '0');
		b = a;
		if (i < tlen && txt[i] == '-') {
			i++;
			if (i >= tlen || txt[i] < '0' || txt[i] > '9')
				return 0;
			for (b = 0; i < tlen && txt[i] >= '0' && txt[i] <= '9'; i++)
				b = b * 10 + (txt[i] - '0');
		}
		if (b < a || b > 60000)
			return 0;
		*count += b - a + 1;
		if (i + 1 == tlen && txt[i] == '\n')
			return 1;
		if (i >= tlen || txt[i] != ',')
			return 0;
		i++;
	}
}

HARNESS(h_ncpu)
{
	unsigned int i, j, use_mask, known = 1;
	long n = 0, hi = -1, r, exp;
#if SYSFS
	long c = 0;
	int ok;
#endif

	for (i = 0; i < KW; i++)
		mask[i] = IN64() & MASKBITS;
	for (i = 0; i < KW; i++)
		for (j = 0; j < 64; j++)
			if (mask[i] >> j & 1)
				hi = (long)(i * 64 + j);
	for (i = 0; i < KW; i++)
		n += bits(mask[i]);
#if MODE == 0			/* the affinity is known */
	a_err = set_fail = 0;
#elif MODE == 1			/* it cannot be had */
	set_fail = 0;
	a_err = IN8();
	ASSUME(a_err && a_err != EINVAL);
#elif MODE == 2			/* no set is large enough */
	set_fail = 0;
	a_err = EINVAL;
#else				/* no memory for a set */
	set_fail = 1;
	a_err = 0;
#endif
	v_onln = (long)(int32_t)IN32();
	v_errno = IN8();
	ASSUME(v_onln >= -1 && v_onln < 100000 && v_errno);
	use_mask = !a_err && !set_fail && n > 0;
	exp = v_onln;
#if SYSFS
	tok = INBIT();
	intr = 1;
	tlen = IN8();
	ASSUME(tlen <= TLEN);
	for (i = 0; i < TLEN; i++)
		txt[i] = (char)IN8();
	ok = list(&c);
	if (tok && ok)
		exp = c;
	else if (tok && tlen && txt[0] != '\n' && txt[0])
		known = 0;	/* a malformed list: either answer will do */
#endif
#if !HIGH
	r = jent_ncpu();
	CHECK(!set_live && !fd_live, "nothing is left behind");
	if (use_mask)
		CHECK(r == n, "the CPUs the thread may run on");
	else if (known) {
		if (exp > 0)
			CHECK(r == exp, "the CPUs that are online when the affinity is unknown");
		else
			CHECK(r < 0, "an error when the system does not know");
	}
	CHECK(r != 0, "never zero CPUs");
#else
	r = jent_cpu_highest();
	CHECK(!set_live && !fd_live, "nothing is left behind");
	if (use_mask)
		CHECK(r == hi, "the highest CPU is one the thread may run on");
	else if (known)
		CHECK(exp > 0 ? r == exp - 1 : r < 0, "the last CPU when the affinity is unknown");
#endif
#if MODE == 0
	WITNESS_IF(use_mask && n == 3 && hi == KW * 64 - 2, "CPUs");
	WITNESS_IF(!use_mask, "empty mask");
#else
	WITNESS_IF(!use_mask && r == 12, "fallback");
#endif
}

/* --- pinning ---------------------------------------------------------------------- */
static unsigned int s_err, s_calls;
static unsigned long s_cpu;
int vp_sched_setaffinity(pid_t pid, size_t size, const cpu_set_t *set)
{
	const uint64_t *w = (const uint64_t *)set;
	unsigned int i;

	CHECK(pid == 0, "the calling thread");
	CHECK(size % 8 == 0 && size * 8 > s_cpu, "the set is large enough");
	s_calls++;
	for (i = 0; i < sizeof(cpu_set_t) / 8; i++)
		if (i < size / 8)
			CHECK(w[i] == (i == s_cpu / 64 ? (uint64_t)1 << s_cpu % 64 : 0), "exactly the CPU asked for");
	if (s_err) {
		errno = (int)s_err;
		return -1;
	}
	return 0;
}
HARNESS(h_pin)
{
	int r;

	s_err = IN8();
	set_fail = INBIT();
#ifdef CPU
	s_cpu = CPU;
#else
	s_cpu = IN64();
	ASSUME(s_cpu < 64 || s_cpu >= 65536);
#endif
	r = jent_thread_pin_to_cpu(s_cpu);
	CHECK(!set_live, "no set is left behind");
	if (s_cpu >= 65536)
		CHECK(r < 0 && !s_calls, "a CPU that cannot exist is refused");
	else if (set_refused)
		CHECK((r == -ENOMEM && !s_calls) || (s_calls == 1 && r == -(int)s_err), "no memory");
	else
		CHECK(s_calls == 1 && r == -(int)s_err, "pinned, or the system's error");
	WITNESS_IF(r == 0, "pinned");
	WITNESS_IF(r == -ENOMEM || s_cpu < 64, "refused");
}

/* --- the timer thread ---------------------------------------------------------------- */
static unsigned int attrs, threads, creates, f_attr, f_create;
static void *t_arg;
static void *(*t_fn)(void *);
static struct jent_notime_ctx ctx;
#include <pthread.h>
int vp_pthread_attr_init(pthread_attr_t *a)
{
	CHECK(a != NULL, "attributes");
	if (f_attr)
		return (int)f_attr;
	attrs++;
	return 0;
}
int vp_pthread_attr_destroy(pthread_attr_t *a)
{
	(void)a;
	CHECK(attrs == 1, "attributes are destroyed once");
	attrs--;
	return 0;
}
int vp_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	(void)a;
	creates++;
	if (f_create)
		return (int)f_create;
	CHECK(!threads, "one thread");
	*t = 0x77;
	threads = 1;
	t_fn = fn;
	t_arg = arg;
	return 0;
}
int vp_pthread_join(pthread_t t, void **r)
{
	(void)r;
	CHECK(threads && t == 0x77, "joins the thread that was started, once");
	threads = 0;
	return 0;
}
static void *fn(void *a) { return a; }
HARNESS(h_thread)
{
	unsigned int k;
	int r;

	for (k = 0; k < 5; k++) {
		if (INBIT()) {
			jent_notime_thread_join(&ctx);
			CHECK(!threads, "no thread runs after the join");
			CHECK(attrs == 0, "and nothing of it is left");
		} else if (!threads) {
			f_attr = IN8();
			f_create = IN8();
			r = jent_notime_thread_create(&ctx, fn, &ctx);
			CHECK((r == 0) == (threads == 1), "success means that the thread runs");
			if (r) {
				CHECK(r == -(int)(f_attr ? f_attr : f_create), "the system's error");
				CHECK(attrs == 0, "a failed start leaves nothing behind");
			} else
				CHECK(t_fn == fn && t_arg == &ctx, "running the function it was given");
		}
	}
	WITNESS_IF(threads && creates == 3, "restarted");
	WITNESS_IF(!threads && creates == 2, "stopped");
}

/* --- the internal timer: real timer.c on top ------------------------------------------- */
#if TIMER
static unsigned int z_live, z_fail, z_flags, yields;
static struct rand_data ec;
static long t_ncpu, t_high;
long jent_ncpu(void) { return t_ncpu; }
long jent_cpu_highest(void) { return t_high; }
void *jent_zalloc(size_t len, unsigned int flags)
{
	z_flags = flags;
	CHECK(len == sizeof(ctx) && !z_live, "the thread's context");
	if (z_fail)
		return NULL;
	z_live = 1;
	return &ctx;
}
void jent_zfree(void *p, size_t len)
{
	CHECK(p == (void *)&ctx && len == sizeof(ctx) && z_live, "freed once, at its full size");
	CHECK(!threads, "no thread runs on freed memory");
	z_live = 0;
}
int jent_time_entropy_init(unsigned int osr, unsigned int flags) { (void)osr; (void)flags; return 1; }
static uint64_t hw;
void jent_get_nstime(uint64_t *out) { *out = hw; }
static uint64_t next_tick[3];
void jent_yield(void)
{
	CHECK(threads, "waits only for a running thread");
	ASSUME(yields < 3);
	ec.notime_timer += next_tick[yields++];	/* the thread got some way */
}
HARNESS(h_tick)
{
	unsigned int flags = IN32(), k;
	uint64_t t, last = 0;
	int r;

	t_ncpu = (long)(int32_t)IN32();
	t_high = (long)(int32_t)IN32();
	z_fail = INBIT();
	f_attr = IN8();
	f_create = IN8();
	/* without it, the hardware's timer */
	hw = IN64();
	ec.notime_timer = ec.notime_prev_timer = IN64();
	CHECK(jent_notime_enable(&ec, flags & ~(unsigned int)JENT_FORCE_INTERNAL_TIMER) == 0 && !ec.enable_notime, "off unless chosen");
	CHECK(jent_notime_settick(&ec) == 0 && !creates, "no thread unless chosen");
	jent_get_nstime_internal(&ec, &t);
	CHECK(t == hw, "the hardware's time");
	jent_notime_unsettick(&ec);
	CHECK(!z_live, "nothing is set up");

	jent_notime_force();
	r = jent_notime_enable(&ec, flags);
	if (t_ncpu < 2 || z_fail) {
		CHECK(r != 0 && !z_live, "a second CPU and memory are required");
		return;
	}
	CHECK(r == 0 && z_live && ec.enable_notime && ec.notime_thread_ctx == &ctx, "set up");
	CHECK(((z_flags ^ flags) & JENT_FORCE_SECURE_MEM) == 0, "in memory as secure as asked for");
	CHECK(ctx.notime_cpu == (unsigned long)(t_high >= 0 ? t_high : t_ncpu - 1), "on the highest CPU it may use");
	r = jent_notime_settick(&ec);
	CHECK((r == 0) == threads, "started, or an error");
	if (!r) {
		CHECK(t_arg == &ec, "counts for its collector");
		CHECK(!ec.notime_interrupt, "not told to stop");
		for (k = 0; k < 2; k++) {
			next_tick[0] = IN64();
			next_tick[1] = IN64();
			next_tick[2] = IN64();
			yields = 0;
			ec.notime_timer += IN64();
			jent_get_nstime_internal(&ec, &t);
			CHECK(t != last, "each time stamp differs from the one before: the counter ticked");
			CHECK(t == ec.notime_timer, "the counter's value");
			last = t;
		}
		/* the routine itself, told to stop at once */
		ec.notime_interrupt = 1;
		s_cpu = ctx.notime_cpu;
		ASSUME(s_cpu < 64);
		s_err = IN8();
		(void)t_fn(t_arg);
		CHECK(s_calls == 1, "on its CPU, whether or not that works");
		ec.notime_interrupt = 0;
		WITNESS_IF(yields == 3, "waited");
	}
	jent_notime_unsettick(&ec);
	CHECK(!threads && !attrs, "stopped");
	CHECK(ec.notime_interrupt, "it was told to");
	/* and again */
	f_attr = f_create = 0;
	CHECK(jent_notime_settick(&ec) == 0 && threads && !ec.notime_interrupt, "can be restarted");
	jent_notime_unsettick(&ec);
	CHECK(!threads && !attrs, "stopped");
	jent_notime_disable(&ec);
	CHECK(!z_live, "released");
	WITNESS("done");
}

/* a registered implementation is used throughout, and its errors are honoured */
static int c_init_r, c_start_r;
static unsigned int c_inits, c_finis, c_starts, c_stops;
static uint8_t c_obj;
static int c_init(void **c) { c_inits++; if (!c_init_r) *c = &c_obj; return c_init_r; }
static void c_fini(void *c) { CHECK(c == &c_obj && c_starts == c_stops, "released after the thread's end"); c_finis++; }
static int c_start(void *c, jent_notime_start_routine f, void *arg) { CHECK(c == &c_obj && arg == &ec && f, "started for its collector"); if (!c_start_r) c_starts++; return c_start_r; }
static void c_stop(void *c) { CHECK(c == &c_obj && ec.notime_interrupt, "told to stop"); if (c_stops < c_starts) c_stops++; }
static struct jent_notime_thread custom = { .jent_notime_init = c_init, .jent_notime_fini = c_fini, .jent_notime_start = c_start, .jent_notime_stop = c_stop };
HARNESS(h_custom)
{
	int r;

	t_ncpu = 4;
	c_init_r = (int8_t)IN8();
	c_start_r = (int8_t)IN8();
	CHECK(jent_notime_switch(&custom) == 0, "registered");
	jent_notime_force();
	r = jent_notime_enable(&ec, 0);
	CHECK(!r == !c_init_r && c_inits == 1, "an implementation that cannot start is an error");
	if (r)
		return;
	CHECK(ec.enable_notime && ec.notime_thread_ctx == &c_obj && !z_live, "the registered implementation is set up");
	r = jent_notime_settick(&ec);
	CHECK(!r == !c_start_r, "a thread that cannot start is an error");
	jent_notime_unsettick(&ec);
	CHECK(c_starts == c_stops, "stopped");
	jent_notime_disable(&ec);
	CHECK(c_finis == 1 && !creates, "released, and the built-in implementation is not used");
	WITNESS_IF(c_starts == 1, "started");
	WITNESS_IF(c_start_r > 0, "error");
}
#endif
