/*
 * Cache sizes on the platforms other than Linux: the real arch-cache.c, taken
 * in as that platform compiles it, over models of what the platform reports.
 */
#include "vp.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#ifndef NCPU
# define NCPU 1
#endif
#define P_CPUID 1
#define P_KX86 2
#define P_KARM 3
#define P_APPLE 4
#define P_WIN 5
#define P_AIX 6
#if PLAT == P_CPUID
# define JENT_BAREMETAL
#elif PLAT == P_KX86 || PLAT == P_KARM
# define LINUX_KERNEL
# if PLAT == P_KX86
#  define CONFIG_X86 1
# else
#  define CONFIG_ARM64 1
# endif
#elif PLAT == P_APPLE
# undef __linux__
# define __APPLE__ 1
#elif PLAT == P_WIN
# undef __linux__
# define __MINGW32__ 1
# define malloc vp_malloc
# define free vp_free
void *vp_malloc(size_t n);
void vp_free(void *p);
#elif PLAT == P_AIX
# undef __linux__
# define _AIX 1
#endif
#include "jitterentropy-arch-cache.c"
#undef malloc
#undef free

#ifndef NSUB
# define NSUB 3		/* caches described by each leaf of each CPU */
#endif

static void roundup(uint64_t sum, uint32_t got)
{
	if (!sum)
		CHECK(got == 0, "unknown caches are reported as unknown");
	else if (sum < (uint64_t)1 << 31) {
		CHECK(got && (got & (got - 1)) == 0, "a power of two");
		CHECK(got > sum, "larger than the caches");
		CHECK(got / 2 <= sum, "and the smallest such");
	}
}
static void answer(uint64_t l1, uint64_t l2, uint64_t l3)
{
	int first = INBIT();
	uint32_t a = jent_cache_size_roundup(first), b = jent_cache_size_roundup(!first);

	roundup(l1, first ? b : a);
	roundup(l1 + l2 + l3, first ? a : b);
	CHECK(jent_cache_size_roundup(first) == a && jent_cache_size_roundup(!first) == b, "the answer does not change");
#if PLAT == P_WIN && defined(FAILS)
	WITNESS_IF(1, "failed");
#elif PLAT == P_WIN
	WITNESS_IF(l1 && l2 && a > 1, "caches");
#else
	WITNESS_IF(l1 && (l2 || NSUB < 2) && (l3 || NSUB < 3) && a > 1, "caches");
#endif
	WITNESS_IF(!l1 && !l2 && !l3, "unknown");
}

/* --- the processor's own description ------------------------------------------------- */
/* the fields' bits that vary */
#ifndef FW
# define FW 3
#endif
#ifndef FN
# define FN 7
#endif
#ifndef FP
# define FP 3
#endif
#ifndef FL
# define FL 7
#endif
#ifndef FS
# define FS 7
#endif
#if PLAT == P_CPUID || PLAT == P_KX86
static unsigned int reg[2 * NCPU * NSUB][3], have[2][NCPU];
static uint64_t size_of[2 * NCPU * NSUB];
static unsigned int cur, garbage;
static void geometry(void)
{
	unsigned int i;

	for (i = 0; i < 2 * NCPU * NSUB; i++) {
		unsigned int type = IN8() & 31, level = IN8() & 7;
		unsigned int w = IN16() & FW, p = IN16() & FP, l = IN16() & FL;
		unsigned int s = IN32() & FS;

		reg[i][0] = type | level << 5 | IN32() << 8;
		reg[i][1] = l | p << 12 | w << 22;
		reg[i][2] = s;
		size_of[i] = ((uint64_t)w + 1) * (p + 1) * (l + 1) * ((uint64_t)s + 1);
	}
	garbage = IN32();
}
static int describe(unsigned int leaf, unsigned int sub, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d)
{
	unsigned int k = leaf == 4 ? 0 : 1;

	CHECK(leaf == 4 || leaf == 0x8000001d, "a leaf that describes caches");
	*a = *b = *c = *d = 0;
	if (sub >= NSUB)
		return 1;		/* no more: type 0 */
	*a = reg[(k * NCPU + cur) * NSUB + sub][0];
	*b = reg[(k * NCPU + cur) * NSUB + sub][1];
	*c = reg[(k * NCPU + cur) * NSUB + sub][2];
	*d = garbage;
	return 1;
}
/* what CPU c has, as processors describe it: one data cache per level, the first level's not unified */
static void expect(unsigned int c, uint64_t *m)
{
	unsigned int k, i, j;

	m[0] = m[1] = m[2] = 0;
	for (k = 0; k < 2 && !m[0] && !m[1] && !m[2]; k++)
		for (i = 0; have[k][c] && i < NSUB; i++) {
			unsigned int e = (k * NCPU + c) * NSUB + i, t = reg[e][0] & 31, lv = reg[e][0] >> 5 & 7;

			if (!t)
				break;
			if (t != 1 && t != 3)
				continue;
			ASSUME(lv >= 1 && !(lv == 1 && t == 3));
			for (j = 0; j < 3; j++)
				if (lv == j + 1) {
					ASSUME(!m[j]);
					m[j] = size_of[e];
				}
		}
}
#endif
#if PLAT == P_CPUID
int vp_cpuid(unsigned int leaf, unsigned int sub, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d)
{
	CHECK(leaf == 4 || leaf == 0x8000001d, "a leaf that describes caches");
	if (!have[leaf != 4][0])
		return 0;
	return describe(leaf, sub, a, b, c, d);
}
HARNESS(h_plat)
{
	uint64_t m[3];

	have[0][0] = INBIT();
	have[1][0] = INBIT();
	geometry();
	expect(0, m);
	answer(m[0], m[1], m[2]);
}
/* all sixteen caches a leaf can describe are looked at */
HARNESS(h_long)
{
	unsigned int i, at = IN8() & 15;
	uint64_t m[3] = { 0, 0, 0 };

	have[0][0] = 1;
	for (i = 0; i < NSUB; i++)
		reg[i][0] = 2 | 1 << 5;
	ASSUME(at < NSUB);
	reg[at][0] = 3 | 2 << 5;
	reg[at][1] = 63;
	reg[at][2] = 63;
	m[1] = 4096;
	{
		uint32_t a = jent_cache_size_roundup(1);

		roundup(4096, a);
		WITNESS_IF(at == 15, "the last one");
	}
	(void)m;
}
#endif

#if PLAT == P_KX86 || PLAT == P_KARM
static unsigned int online, fails, on_cpu, hotplug;
void cpus_read_lock(void) { hotplug++; }
void cpus_read_unlock(void) { CHECK(hotplug, "locked"); hotplug--; }
int vp_online(int cpu)
{
	CHECK(hotplug, "the set of CPUs does not change while it is walked");
	return online >> cpu & 1;
}
static unsigned int k_cur;
int smp_call_function_single(int cpu, void (*fn)(void *), void *info, int wait)
{
	CHECK(hotplug && cpu >= 0 && cpu < NCPU && (online >> cpu & 1), "a CPU that is there");
	CHECK(wait, "the answer is waited for");
	if (fails >> cpu & 1)
		return -6;
	on_cpu = 1;
	k_cur = (unsigned int)cpu;
	fn(info);
	on_cpu = 0;
	return 0;
}
static void largest(uint64_t *m, const uint64_t *n)
{
	unsigned int i;

	for (i = 0; i < 3; i++)
		if (n[i] > m[i])
			m[i] = n[i];
}
#endif
#if PLAT == P_KX86
struct vp_cpuinfo boot_cpu_data;
void cpuid_count(unsigned int leaf, unsigned int sub, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d)
{
	CHECK(on_cpu, "asked on the CPU in question");
	CHECK(leaf == 4 || leaf == 0x8000001d, "a leaf that describes caches");
	if (!have[leaf != 4][0]) {	/* not supported: another leaf's content */
		*a = garbage | 1 << 5 | 1;
		*b = *c = *d = garbage;
		return;
	}
	cur = k_cur;
	describe(leaf, sub, a, b, c, d);
}
HARNESS(h_plat)
{
	uint64_t m[3] = { 0, 0, 0 }, n[3];
	unsigned int i;

	boot_cpu_data.cpuid_level = (int)(IN8() & 31);
	boot_cpu_data.extended_cpuid_level = IN32();
	ASSUME(boot_cpu_data.extended_cpuid_level == 0 || boot_cpu_data.extended_cpuid_level >> 16 == 0x8000);
	for (i = 0; i < NCPU; i++) {
		have[0][i] = boot_cpu_data.cpuid_level >= 4;
		have[1][i] = boot_cpu_data.extended_cpuid_level >= 0x8000001d;
	}
	online = IN8();
	fails = IN8();
	geometry();
	for (i = 0; i < NCPU; i++) {
		expect(i, n);
		if ((online >> i & 1) && !(fails >> i & 1))
			largest(m, n);
	}
	answer(m[0], m[1], m[2]);
	CHECK(!hotplug, "unlocked");
}
#endif
#if PLAT == P_KARM
static uint64_t clidr[NCPU], ccs[NCPU * 8], mmfr2[NCPU];
static unsigned int sel, barrier;
void isb(void)
{
	CHECK(on_cpu, "on the CPU in question");
	barrier = 1;
}
void vp_write_sysreg(uint64_t v, int r)
{
	CHECK(on_cpu && r == csselr_el1, "selects a cache of the CPU in question");
	CHECK(!(v & 1), "its data or unified cache");
	sel = (unsigned int)(v >> 1) & 7;
	barrier = 0;
}
uint64_t vp_read_sysreg(int r)
{
	CHECK(on_cpu, "asked on the CPU in question");
	if (r == clidr_el1)
		return clidr[k_cur];
	if (r == id_aa64mmfr2_el1)
		return mmfr2[k_cur];
	CHECK(r == ccsidr_el1, "a cache register");
	CHECK(barrier, "the selection has taken effect");
	return ccs[k_cur * 8 + sel];
}
HARNESS(h_plat)
{
	uint64_t m[3] = { 0, 0, 0 }, n[3];
	unsigned int i, l;

	online = IN8();
	fails = IN8();
	for (i = 0; i < NCPU; i++) {
		int over = 0, wide;

		clidr[i] = IN32();
		mmfr2[i] = IN64();
		wide = (mmfr2[i] >> 20 & 15) != 0;
		n[0] = n[1] = n[2] = 0;
		for (l = 0; l < 7; l++) {
			unsigned int t = (unsigned int)(clidr[i] >> 3 * l & 7), a = IN32() & FW, s = IN32() & FS, ln = IN8() & FN;

			ccs[i * 8 + l] = wide ? ln | (uint64_t)(a & 0x1fffff) << 3 | (uint64_t)(s & 0xffffff) << 32
					      : ln | (uint64_t)(a & 0x3ff) << 3 | (uint64_t)(s & 0x7fff) << 13;
			if (!t)
				over = 1;
			if (over || l > 2 || t < 2 || t > 4)
				continue;
			n[l] = (((uint64_t)(wide ? a & 0x1fffff : a & 0x3ff) + 1) * ((uint64_t)(wide ? s & 0xffffff : s & 0x7fff) + 1)) << (ln + 4);
		}
		if ((online >> i & 1) && !(fails >> i & 1))
			largest(m, n);
	}
	answer(m[0], m[1], m[2]);
	CHECK(!hotplug, "unlocked");
}
#endif

#if PLAT == P_AIX
struct vp_aix _system_configuration;
HARNESS(h_plat)
{
	int a = (int)IN32(), b = (int)IN32();
	uint32_t r0, r1;

	_system_configuration.dcache_size = a;
	_system_configuration.L2_cache_size = b;
	r0 = jent_cache_size_roundup(0);
	r1 = jent_cache_size_roundup(1);
	roundup(a > 0 ? (uint64_t)a : 0, r0);
	roundup((a > 0 ? (uint64_t)a : 0) + (b > 0 ? (uint64_t)b : 0), r1);
	WITNESS_IF(a > 0 && b > 0, "two levels");
}
#endif

#if PLAT == P_APPLE
static uint64_t s_val[6];
static uint8_t s_how[6];	/* 0: unknown, 1: 64 bits, 2: 32 bits, 3: something else */
static int same(const char *a, const char *b)
{
	unsigned int i;

	for (i = 0; a[i] == b[i]; i++)
		if (!a[i])
			return 1;
	return 0;
}
int sysctlbyname(const char *name, void *old, size_t *len, void *new_, size_t newlen)
{
	static const char *const names[6] = { "hw.perflevel0.l1dcachesize", "hw.l1dcachesize", "hw.perflevel0.l2cachesize",
		"hw.l2cachesize", "hw.perflevel0.l3cachesize", "hw.l3cachesize" };
	unsigned int i;

	CHECK(!new_ && !newlen, "nothing is changed");
	for (i = 0; i < 6; i++)
		if (same(name, names[i]))
			break;
	CHECK(i < 6, "a cache size is asked for");
	if (!s_how[i])
		return -1;
	CHECK(*len == 8, "there is room for 64 bits");
	if (s_how[i] == 1)
		*(uint64_t *)old = s_val[i];
	else if (s_how[i] == 2) {
		*(uint32_t *)old = (uint32_t)s_val[i];
		*len = 4;
	} else {
		*(uint8_t *)old = (uint8_t)s_val[i];
		*len = 1;
	}
	return 0;
}
HARNESS(h_plat)
{
	uint64_t m[3];
	unsigned int i, k;

	for (i = 0; i < 3; i++) {
		m[i] = 0;
		for (k = 0; k < 2; k++) {
			s_how[2 * i + k] = IN8() & 3;
			s_val[2 * i + k] = IN64();
			if (s_how[2 * i + k] == 2)
				s_val[2 * i + k] &= 0xffffffff;
			if (!m[i] && (s_how[2 * i + k] == 1 || s_how[2 * i + k] == 2) && s_val[2 * i + k] <= (uint64_t)LONG_MAX)
				m[i] = s_val[2 * i + k];
		}
		ASSUME(m[i] < (uint64_t)1 << 30);
	}
	answer(m[0], m[1], m[2]);
}
#endif

#if PLAT == P_WIN
#ifndef NREC
# define NREC 3
#endif
#define FULL sizeof(SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX)
#define LEAST (offsetof(SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, Cache) + sizeof(CACHE_RELATIONSHIP))
#ifndef SHAPE		/* the last record is malformed: empty, too small, beyond the end, or smaller than its header */
# define LASTSIZE LEAST
#elif SHAPE == 0
# define LASTSIZE 0
#elif SHAPE == 1
# define LASTSIZE (LEAST - 4)
#elif SHAPE == 2
# define LASTSIZE (LEAST + 4)
#else
# define LASTSIZE 7
#endif
#if defined(SHAPE) && SHAPE == 1
# define RECLEN ((NREC - 1) * FULL + LEAST - 4)
#else
# define RECLEN ((NREC - 1) * FULL + LEAST)
#endif
static struct { SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX e; } given[NREC];
static unsigned int live, f_mem, f_first, f_second, w_rel[NREC], w_lv[NREC], w_ty[NREC];
static DWORD w_sz[NREC];
DWORD GetLastError(void) { return f_first ? ERROR_GEN_FAILURE : ERROR_INSUFFICIENT_BUFFER; }
void *vp_malloc(size_t n)
{
	CHECK(!live && n == RECLEN, "room for the answer");
	if (f_mem)
		return NULL;
	live = 1;
	return given;
}
void vp_free(void *p)
{
	if (!p)
		return;
	CHECK(live && p == (void *)given, "freed once");
	live = 0;
}
BOOL GetLogicalProcessorInformationEx(LOGICAL_PROCESSOR_RELATIONSHIP r, PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX buf, DWORD *len)
{
	unsigned int i;

	CHECK(r == RelationCache, "caches are asked for");
	if (!buf) {
		*len = RECLEN;
		return 0;
	}
	CHECK(live && *len == RECLEN, "into the buffer");
	if (f_second)
		return 0;
	for (i = 0; i < NREC; i++) {
		given[i].e.Relationship = (LOGICAL_PROCESSOR_RELATIONSHIP)w_rel[i];
		given[i].e.Size = i == NREC - 1 ? LASTSIZE : FULL;
		given[i].e.Cache.Level = (BYTE)w_lv[i];
		given[i].e.Cache.Type = (PROCESSOR_CACHE_TYPE)w_ty[i];
		given[i].e.Cache.CacheSize = w_sz[i];
	}
	return 1;
}
HARNESS(h_plat)
{
	uint64_t m[3] = { 0, 0, 0 };
	unsigned int i;

#ifdef FAILS		/* 1: no memory, 2: no answer, 4: none the second time */
	f_mem = FAILS & 1;
	f_first = FAILS >> 1 & 1;
	f_second = FAILS >> 2 & 1;
#endif
	for (i = 0; i < NREC; i++) {
		w_rel[i] = IN8() & 7;
		w_lv[i] = IN8() & 7;
		w_ty[i] = IN8() & 3;
		w_sz[i] = IN32() & 0x1fffffff;
#ifdef SHAPE
		if (i == NREC - 1)
			break;
#endif
		if (w_rel[i] != RelationCache || (w_ty[i] != CacheData && w_ty[i] != CacheUnified))
			continue;
		if (w_lv[i] == 1 && w_ty[i] == CacheData && w_sz[i] > m[0])
			m[0] = w_sz[i];
		if (w_lv[i] == 2 && w_sz[i] > m[1])
			m[1] = w_sz[i];
		if (w_lv[i] == 3 && w_sz[i] > m[2])
			m[2] = w_sz[i];
	}
	if (f_mem || f_first || f_second)
		m[0] = m[1] = m[2] = 0;
	answer(m[0], m[1], m[2]);
	CHECK(!live, "nothing is left behind");
}
#endif
