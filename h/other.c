/*
 * Memory, randomness, threads and clocks of the platforms other than Linux: the
 * real files of arch/, taken in as that platform compiles them, over models of
 * its interfaces.
 */
#include "vp.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-arch-thread.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <sys/param.h>
#include <unistd.h>

#define P_WIN 1
#define P_MAC 2
#define P_FREEBSD 3
#define P_NETBSD 4
#define P_OPENBSD 5
#define P_KERNEL 6
#define P_GENERIC 7
#define P_AIX 8
#define P_ODD 9
#undef __linux__
#if PLAT == P_WIN
# define __MINGW32__ 1
# define __stdcall
#elif PLAT == P_MAC
# define __APPLE__ 1
# define __MACH__ 1
#elif PLAT == P_FREEBSD
# define __FreeBSD__ 14
#elif PLAT == P_NETBSD
# define __NetBSD__ 1
#elif PLAT == P_OPENBSD
# define __OpenBSD__ 1
#elif PLAT == P_KERNEL
# define LINUX_KERNEL
#elif PLAT == P_AIX
# define _AIX 1
#endif

#ifdef MEM
/* --- memory ---------------------------------------------------------------------------- */
static uint8_t *the_byte;
static void wipe(void *p, size_t n)
{
	if ((uintptr_t)the_byte >= (uintptr_t)p && (uintptr_t)the_byte - (uintptr_t)p < n)
		*the_byte = 0;
}
#if PLAT == P_WIN
# include <windows.h>
#endif
#include "jitterentropy-arch-memory.c"
#if PLAT == P_WIN
#define PAGE 64
#define NPAGES 6
static uint8_t arena[NPAGES * PAGE] __attribute__((aligned(4096)));
static uint8_t prot[NPAGES], locked[NPAGES];
static unsigned int mapped, maps, unmaps, f_map, f_prot, f_lock, secret;

void GetSystemInfo(SYSTEM_INFO *si) { si->dwPageSize = PAGE; }
void SecureZeroMemory(void *p, size_t n) { wipe(p, n); }
void *VirtualAlloc(void *a, size_t n, DWORD type, DWORD p)
{
	unsigned int i;

	CHECK(!a && !mapped && (type & MEM_COMMIT) && (type & MEM_RESERVE), "memory of its own");
	maps++;
	if (f_map || n > sizeof(arena) || !n)
		return NULL;
	mapped = (unsigned int)((n + PAGE - 1) / PAGE);
	for (i = 0; i < NPAGES; i++) {
		prot[i] = (uint8_t)p;
		locked[i] = 0;
	}
	return arena;
}
static int range(const void *a, size_t len, unsigned int *from, unsigned int *to)
{
	size_t off = (size_t)((const uint8_t *)a - arena);

	if ((const uint8_t *)a < arena || off > (size_t)mapped * PAGE || len > (size_t)mapped * PAGE - off)
		return 0;
	*from = (unsigned int)(off / PAGE);
	*to = (unsigned int)((off + len + PAGE - 1) / PAGE);
	return 1;
}
BOOL VirtualProtect(void *a, size_t n, DWORD p, DWORD *old)
{
	unsigned int f = 0, t = 0, i;

	CHECK(mapped && range(a, n, &f, &t) && old, "protection of pages of the mapping");
	if (f_prot || !n)
		return 0;
	for (i = 0; i < NPAGES; i++)
		if (i >= f && i < t) {
			*old = prot[i];
			prot[i] = (uint8_t)p;
		}
	return 1;
}
BOOL VirtualLock(void *a, size_t n)
{
	unsigned int f = 0, t = 0, i;

	CHECK(mapped && range(a, n, &f, &t), "lock of pages of the mapping");
	if (f_lock)
		return 0;
	for (i = 0; i < NPAGES; i++)
		if (i >= f && i < t)
			locked[i] = 1;
	return 1;
}
BOOL VirtualUnlock(void *a, size_t n)
{
	unsigned int f = 0, t = 0, i, all = 1;

	CHECK(mapped && range(a, n, &f, &t), "unlock of pages of the mapping");
	if (secret)
		CHECK(*the_byte == 0, "wiped before it can be paged out");
	for (i = 0; i < NPAGES; i++)
		if (i >= f && i < t) {
			all &= locked[i];
			locked[i] = 0;
		}
	return (int)all;
}
BOOL VirtualFree(void *a, size_t n, DWORD type)
{
	CHECK(a == (void *)arena && mapped && n == 0 && type == MEM_RELEASE, "the whole mapping is given back, once");
	if (secret)
		CHECK(*the_byte == 0, "wiped before it is given back");
	unmaps++;
	mapped = 0;
	return 1;
}

HARNESS(h_mem)
{
	size_t len = IN64(), probe = IN32();
	unsigned int flags = IN32(), i, f, t;
	uint8_t *p, fill = IN8();
	int force = !!(flags & JENT_FORCE_SECURE_MEM);

	f_map = INBIT();
	f_prot = INBIT();
	f_lock = INBIT();
	CHECK(jent_secure_memory_supported() == 1, "this platform locks and wipes");
	CHECK(!!jent_memory_is_secure(flags) == force, "memory is called secure only when it is certain");
	jent_zfree(NULL, len);
	CHECK(!unmaps, "freeing nothing does nothing");
	ASSUME(len && probe < sizeof(arena));
	the_byte = arena + probe;
	p = jent_zalloc(len, flags);
	if (!p) {
		CHECK(!mapped && unmaps <= maps, "a failed allocation leaves no mapping");
		CHECK(f_map || f_prot || len > sizeof(arena) - 2 * PAGE || (f_lock && force), "it fails only for a reason");
		WITNESS_IF(f_lock && force && unmaps, "lock refused");
		WITNESS_IF(!maps && len > SIZE_MAX - 100, "overflow");
		return;
	}
	CHECK(maps == 1 && mapped && !unmaps, "memory of its own mapping");
	CHECK(len <= sizeof(arena) - 2 * PAGE, "the mapping has room for it");
	ASSUME(len <= sizeof(arena) - 2 * PAGE);
	CHECK(!f_lock || !force, "a refused lock is tolerated only when secure memory is optional");
	CHECK(range(p, len, &f, &t), "inside the mapping");
	CHECK(f > 0 && t < mapped, "a page on each side");
	ASSUME(f > 0 && t < mapped && t < NPAGES);
	for (i = 0; i < NPAGES; i++)
		if (i >= f && i < t) {
			CHECK(prot[i] == PAGE_READWRITE, "accessible");
			CHECK(f_lock || locked[i], "the lock is always attempted, for all of it");
		}
	CHECK(prot[f - 1] == PAGE_NOACCESS && prot[t] == PAGE_NOACCESS, "guard pages on both sides");
	ASSUME(the_byte >= p && the_byte < p + len);
	CHECK(*the_byte == 0, "zeroed");
	*the_byte = fill;
	secret = 1;
	jent_zfree(p, len);
	CHECK(unmaps == 1 && !mapped && *the_byte == 0, "wiped and freed exactly once");
	WITNESS_IF(len == 3 * PAGE && !f_lock, "several pages");
	WITNESS_IF(len == PAGE + 1 && f_lock, "lock tolerated");
}
#endif
#endif

#ifdef RND
/* --- randomness ------------------------------------------------------------------------ */
#define NB 5
#define PAD 2
static uint8_t area[NB + 2 * PAD], from[NB + 2 * PAD];
static size_t len;
static unsigned int fails, calls;
static void fill(uint8_t *buf, size_t n)
{
	size_t off = (size_t)(buf - area), i;

	calls++;
	CHECK(off >= PAD && off <= PAD + len && n <= PAD + len - off, "asks only for bytes of the buffer");
	ASSUME(off >= PAD && off <= PAD + len && n <= PAD + len - off);
	for (i = 0; i < NB; i++)
		if (i < n)
			from[off + i] = 1;
}
#if PLAT == P_KERNEL
void get_random_bytes(void *b, size_t n) { fill(b, n); }
#elif PLAT == P_WIN
# include <bcrypt.h>
NTSTATUS BCryptGenRandom(void *alg, uint8_t *buf, ULONG n, ULONG flags)
{
	CHECK(!alg && flags == BCRYPT_USE_SYSTEM_PREFERRED_RNG, "the system's generator");
	if (fails)
		return (NTSTATUS)0xC0000001L;
	fill(buf, n);
	return 0;
}
#else
# undef arc4random_buf
# define arc4random_buf vp_arc4
void vp_arc4(void *b, size_t n) { fill(b, n); }
#endif
#include "jitterentropy-arch-random.c"
HARNESS(h_random)
{
	unsigned int i;
	int r;

	len = IN8();
	ASSUME(len <= NB);
	fails = PLAT == P_WIN ? INBIT() : 0;
	r = jent_os_random_bytes(area + PAD, len);
	CHECK(jent_os_random_supported() == 1, "supported");
	CHECK(r == 0 || r == -1, "success or failure");
	CHECK(r == 0 || fails, "fails only when the system fails");
	for (i = 0; i < sizeof(area); i++)
		if (i >= PAD && i < PAD + len && !r)
			CHECK(from[i], "success means that every byte is random");
	WITNESS_IF(!r && len == NB, "full");
	WITNESS_IF(PLAT != P_WIN || (r && len), "failed");
}
#endif

#ifdef PIN
/* --- pinning ---------------------------------------------------------------------------- */
static unsigned long want;
#define pthread_self vp_self
pthread_t vp_self(void) { return (pthread_t)77; }
static unsigned int calls, err;
#if PLAT == P_WIN
# define NG 2
# define VP_NGROUPS NG
# include <windows.h>
# define malloc vp_malloc
# define free vp_free
static SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX heap;
static unsigned int ng, live, f_malloc, f_first, f_second, queries, pinned_group;
static uint64_t mask[NG], pinned_mask;
static DWORD total;
void *vp_malloc(size_t n)
{
	CHECK(n == total, "as much as is needed");
	if (f_malloc)
		return NULL;
	live++;
	return &heap;
}
void vp_free(void *p) { CHECK(!p || (p == (void *)&heap && live == 1), "freed once"); if (p) live--; }
void vp_zero(void *p, size_t n) { memset(p, 0, n); }
HANDLE GetCurrentThread(void) { return (HANDLE)-2; }
DWORD GetLastError(void) { return f_first ? ERROR_GEN_FAILURE : ERROR_INSUFFICIENT_BUFFER; }
BOOL GetLogicalProcessorInformationEx(LOGICAL_PROCESSOR_RELATIONSHIP r, PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX buf, DWORD *len)
{
	CHECK(r == RelationGroup, "groups");
	queries++;
	if (queries == 1 || !buf) {
		if (!f_first)
			*len = total;
		return 0;
	}
	CHECK(buf == &heap && *len >= total, "room");
	if (f_second)
		return 0;
	unsigned int i, k;

	heap.Relationship = RelationGroup;
	heap.Size = total;
	heap.Group.MaximumGroupCount = heap.Group.ActiveGroupCount = (WORD)NGR;
	for (i = 0; i < NG; i++) {
		unsigned int n = 0;

		for (k = 0; k < 64; k++)
			if (MASKBITS >> k & 1)
				n += mask[i] >> k & 1;
		heap.Group.GroupInfo[i].ActiveProcessorCount = (BYTE)n;
		heap.Group.GroupInfo[i].MaximumProcessorCount = 64;
		heap.Group.GroupInfo[i].ActiveProcessorMask = mask[i];
	}
	*len = total;
	return 1;
}
BOOL SetThreadGroupAffinity(HANDLE h, const GROUP_AFFINITY *ga, GROUP_AFFINITY *old)
{
	CHECK(h == (HANDLE)-2, "the calling thread");
	CHECK(!ga->Reserved[0] && !ga->Reserved[1] && !ga->Reserved[2], "reserved fields are zero");
	(void)old;
	calls++;
	pinned_group = ga->Group;
	pinned_mask = ga->Mask;
	return !err;
}
#elif PLAT == P_MAC
# include <mach/mach.h>
mach_port_t pthread_mach_thread_np(pthread_t t) { (void)t; return 99; }
# undef ENOTSUP
# define ENOTSUP 45
kern_return_t thread_policy_set(mach_port_t t, unsigned int flavor, thread_policy_t p, unsigned int count)
{
	CHECK(t == 99 && flavor == THREAD_AFFINITY_POLICY && count == 1, "the calling thread's affinity");
	CHECK(*p > 0 && (unsigned long)*p == want + 1, "a set of its own");
	calls++;
	return (int)err;
}
#elif PLAT == P_FREEBSD
# include <sys/cpuset.h>
static unsigned int zeroed, bits;
static cpuset_t *the_set;
void vp_cpu_zero(cpuset_t *s) { the_set = s; zeroed = 1; bits = 0; }
void vp_cpu_set(int n, cpuset_t *s)
{
	CHECK(s == the_set && zeroed && n >= 0 && n < CPU_SETSIZE && (unsigned long)n == want, "exactly the requested CPU");
	bits++;
}
int cpuset_setaffinity(int level, int which, int64_t id, size_t n, const cpuset_t *s)
{
	CHECK(level == CPU_LEVEL_WHICH && which == CPU_WHICH_TID && id == -1, "the calling thread");
	CHECK(s == the_set && bits == 1 && n == sizeof(cpuset_t), "the whole set");
	calls++;
	if (err) {
		errno = (int)err;
		return -1;
	}
	return 0;
}
#elif PLAT == P_NETBSD
typedef struct { int x; } vp_cpuset;
# define cpuset_t vp_cpuset
typedef unsigned long cpuid_t;
static vp_cpuset the_set;
static unsigned int live, f_create, f_set, bits, zeroed;
vp_cpuset *cpuset_create(void) { if (f_create) return NULL; live++; return &the_set; }
void cpuset_zero(vp_cpuset *s) { CHECK(s == &the_set && live, "its set"); zeroed = 1; bits = 0; }
int cpuset_set(cpuid_t c, vp_cpuset *s) { CHECK(s == &the_set && zeroed && live && c == want, "exactly the requested CPU"); bits++; return f_set ? -1 : 0; }
size_t cpuset_size(vp_cpuset *s) { CHECK(s == &the_set && live, "its set"); return 40; }
void cpuset_destroy(vp_cpuset *s) { CHECK(s == &the_set && live == 1, "destroyed once"); live--; }
# define pthread_setaffinity_np vp_setaffinity
int vp_setaffinity(pthread_t t, size_t n, vp_cpuset *s)
{
	(void)t;
	CHECK(s == &the_set && live && bits == 1 && n == 40, "the whole set");
	calls++;
	return (int)err;
}
#endif
#include "jitterentropy-arch-thread.c"
#undef malloc
#undef free
HARNESS(h_pin)
{
	int r;

	want = IN64();
	err = IN8();
#if PLAT == P_WIN
	unsigned int i, k, found = 0;
	unsigned long left = want;

	ng = NGR;
	f_malloc = INBIT();
	f_first = INBIT();
	f_second = INBIT();
	total = 32 + NGR * 48;
	for (i = 0; i < NG; i++)
		mask[i] = IN64() & MASKBITS;
	r = jent_thread_pin_to_cpu(want);
	CHECK(!live, "nothing is left behind");
	if (f_first || f_second || f_malloc) {
		CHECK(r < 0 && !calls, "the system's error");
	} else {
		for (i = 0; i < NG; i++)
			for (k = 0; k < 64; k++)
				if ((MASKBITS >> k & 1) && i < ng && (mask[i] >> k & 1)) {
					if (!left && !found) {
						found = 1;
						CHECK(calls == 1 && pinned_group == i && pinned_mask == (uint64_t)1 << k, "exactly the requested CPU");
					}
					left -= left != 0;
				}
		if (!found)
			CHECK(r < 0 && !calls, "a CPU that does not exist is refused");
		else
			CHECK((r == 0) == !err && r <= 0, "pinned, or an error");
	}
	WITNESS_IF(found && pinned_group == NGR - 1 && pinned_mask > 16 && !r, "last group");
	WITNESS_IF(!found && want < 5, "too few");
	WITNESS_IF(f_malloc && r == -ENOMEM, "no memory");
#else
# if PLAT == P_NETBSD
	f_create = INBIT();
	f_set = INBIT();
# endif
	r = jent_thread_pin_to_cpu(want);
# if PLAT == P_MAC
	if (want >= INT32_MAX)
		CHECK(r < 0 && !calls, "a CPU that cannot be named is refused");
	else
		CHECK(calls == 1 && (r == 0) == !err && r <= 0 && (err != KERN_NOT_SUPPORTED || r == -ENOTSUP), "pinned, or the reason");
	WITNESS_IF(!r && want == 1000000, "pinned");
	WITNESS_IF(r == -ENOTSUP, "refused");
# elif PLAT == P_FREEBSD
	if (want >= CPU_SETSIZE)
		CHECK(r < 0 && !calls, "a CPU that cannot exist is refused");
	else
		CHECK(calls == 1 && r == -(int)err, "pinned, or the system's error");
	WITNESS_IF(!r && want == 1023, "pinned");
	WITNESS_IF(r == -4, "refused");
# elif PLAT == P_NETBSD
	CHECK(!live, "no set is left behind");
	if (f_create || f_set)
		CHECK(r < 0 && !calls, "no such CPU, or no memory");
	else
		CHECK(calls == 1 && r == -(int)err, "pinned, or the system's error");
	WITNESS_IF(!r && want == 1023, "pinned");
	WITNESS_IF(r == -EINVAL && f_set, "refused");
# else
	CHECK(r < 0, "never claims success");
	WITNESS("refused");
# endif
#endif
}

#ifdef JENT_WIN_THREADS
static struct jent_notime_ctx ctx;
static unsigned int begun, waited, closed;
static unsigned (*t_fn)(void *);
static void *t_arg;
uintptr_t _beginthreadex(void *sec, unsigned stack, unsigned (*fn)(void *), void *arg, unsigned flags, unsigned *id)
{
	(void)sec; (void)stack; (void)id;
	CHECK(!(flags & 4), "not suspended");
	if (err) {
		errno = err == 255 ? 0 : (int)err;
		return 0;
	}
	begun++;
	t_fn = fn;
	t_arg = arg;
	return 0x55;
}
DWORD WaitForSingleObject(HANDLE h, DWORD ms) { CHECK(h == (HANDLE)0x55 && ms == INFINITE && !closed, "waits for the thread's end"); waited++; return 0; }
BOOL CloseHandle(HANDLE h) { CHECK(h == (HANDLE)0x55 && waited == closed + 1, "closed after its end, once"); closed++; return 1; }
static unsigned int ran;
static int marker;
static int the_thread(void *a) { CHECK(a == (void *)&marker, "its argument"); ran++; return 0; }
HARNESS(h_thread)
{
	int r;

	err = IN8();
	jent_notime_thread_join(&ctx);
	CHECK(!waited && !closed, "nothing to wait for");
	r = jent_notime_thread_create(&ctx, the_thread, &marker);
	if (err) {
		CHECK(r < 0 && (err == 255 || r == -(int)err), "the system's error");
		jent_notime_thread_join(&ctx);
		CHECK(!waited && !closed, "a failed start leaves nothing behind");
		WITNESS_IF(err == 255, "unknown error");
		return;
	}
	CHECK(r == 0 && begun == 1, "one thread");
	(void)t_fn(t_arg);
	CHECK(ran == 1, "the routine runs in it");
	jent_notime_thread_join(&ctx);
	CHECK(waited == 1 && closed == 1, "waited for and released");
	jent_notime_thread_join(&ctx);
	CHECK(waited == 1 && closed == 1, "once");
	WITNESS("joined");
}
#endif
#endif

#ifdef CLK
/* --- clocks ------------------------------------------------------------------------------ */
static uint64_t c_a, c_b;
static int c_fail;
#undef __x86_64__
#undef __i386__
#undef __aarch64__
#if PLAT == P_KERNEL
typedef uint64_t vp_u64;
# define __u64 vp_u64
unsigned long random_get_entropy(void) { return c_a; }
uint64_t ktime_get_ns(void) { return c_b; }
#elif PLAT == P_MAC
# include <mach/mach_time.h>
uint64_t mach_absolute_time(void) { return c_a; }
#elif PLAT == P_GENERIC
# define clock_gettime vp_clock_gettime
int vp_clock_gettime(int c, struct timespec *t)
{
	CHECK(c == CLOCK_MONOTONIC, "a clock nobody sets");
	if (c_fail)
		return -1;
	t->tv_sec = (time_t)c_a;
	t->tv_nsec = (long)c_b;
	return 0;
}
#endif
#include "jitterentropy-arch-timer.c"
HARNESS(h_clock)
{
	uint64_t out = IN64(), before = out;

	c_a = IN64();
	c_b = IN64();
	c_fail = INBIT();
	(void)before;
#if PLAT == P_GENERIC
	c_a = (uint32_t)c_a;
	ASSUME(c_b < 1000000000);
	jent_get_nstime(&out);
	if (!c_fail)
		CHECK(out == c_a * 1000000000 + c_b, "nanoseconds of the clock");
	else
		CHECK(out == 0, "no clock, no time");
#else
	jent_get_nstime(&out);
	CHECK(out == (PLAT == P_KERNEL && !c_a ? c_b : c_a), "the counter, all of it");
#endif
	WITNESS_IF(out > 5000000000, "time");
}
#endif
