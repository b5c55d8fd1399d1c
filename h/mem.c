/*
 * Secure memory: real arch-memory.c over a model of the system calls (or of
 * the crypto library's allocator) which keeps the protection, lock and dump
 * state of each page. Every call may fail, with any errno.
 */
#include "vp.h"
#include "jitterentropy.h"
#include "jitterentropy-arch-memory.h"

/* memset() is an operation on the one byte that is looked at, which is any */
static uint8_t *the_byte;
#undef memset
void *vp_memset(void *p, int c, size_t n)
{
#if PAGE != 4096	/* with real pages only the layout is looked at */
	if ((uintptr_t)the_byte >= (uintptr_t)p && (uintptr_t)the_byte - (uintptr_t)p < n)
		*the_byte = (uint8_t)c;
#else
	(void)c; (void)n;
#endif
	return p;
}

#ifndef WIPE
void jent_memset_secure(void *s, size_t n)
{
	vp_memset(s, 0, n);
}
#endif

#if BACKEND == 0	/* POSIX */
#include <sys/mman.h>
#include <unistd.h>
#ifndef PAGE
# define PAGE 64
#endif
#define NPAGES 6
static uint8_t arena[NPAGES * PAGE] __attribute__((aligned(4096)));
static uint8_t prot[NPAGES], locked[NPAGES], nodump[NPAGES];
static unsigned int mapped;		/* pages of the one mapping */
static unsigned int f_mmap, f_prot1, f_prot2, f_lock, f_madv, maps, unmaps, nprot, f_sysconf;
static int f_errno;
static size_t probe;	/* any byte */
static size_t secret_len;		/* of the payload that must be wiped */

long sysconf(int name)
{
	CHECK(name == _SC_PAGESIZE, "only the page size is asked for");
	if (f_sysconf)
		return -1;
	return PAGE;
}
void *mmap(void *addr, size_t len, int p, int flags, int fd, off_t off)
{
	unsigned int i;

	(void)off;
	CHECK(!addr && fd == -1 && (flags & MAP_ANONYMOUS) && (flags & MAP_PRIVATE) && !(flags & MAP_FIXED), "private anonymous memory");
	CHECK(!mapped, "one mapping per allocation");
	maps++;
	if (f_mmap || len > sizeof(arena) || !len) {
		errno = ENOMEM;
		return MAP_FAILED;
	}
	mapped = (unsigned int)((len + PAGE - 1) / PAGE);
	for (i = 0; i < NPAGES; i++) {
		prot[i] = (uint8_t)p;
		locked[i] = nodump[i] = 0;
	}
	return arena;
}
/* all pages of [a, a + len) are in the mapping */
static int range(const void *a, size_t len, unsigned int *from, unsigned int *to)
{
	size_t off = (size_t)((const uint8_t *)a - arena);

	if ((const uint8_t *)a < arena || off > (size_t)mapped * PAGE || len > (size_t)mapped * PAGE - off)
		return 0;
	*from = (unsigned int)(off / PAGE);
	*to = (unsigned int)((off + len + PAGE - 1) / PAGE);
	return 1;
}
int mprotect(void *a, size_t len, int p)
{
	unsigned int f = 0, t = 0, i;

	nprot++;
	CHECK(mapped && range(a, len, &f, &t) && ((uint8_t *)a - arena) % PAGE == 0, "protection of pages of the mapping");
	if ((f_prot1 && nprot == 1) || (f_prot2 && nprot == 2)) {
		errno = f_errno;
		return -1;
	}
	for (i = 0; i < NPAGES; i++)
		if (i >= f && i < t)
			prot[i] = (uint8_t)p;
	return 0;
}
int mlock(const void *a, size_t len)
{
	unsigned int f = 0, t = 0, i;

	CHECK(mapped && range(a, len, &f, &t), "lock of pages of the mapping");
	if (f_lock) {
		errno = f_errno;
		return -1;
	}
	for (i = 0; i < NPAGES; i++)
		if (i >= f && i < t)
			locked[i] = 1;
	return 0;
}
int madvise(void *a, size_t len, int advice)
{
	unsigned int f = 0, t = 0, i;

	CHECK(mapped && range(a, len, &f, &t), "advice on pages of the mapping");
	if (f_madv) {
		errno = EINVAL;
		return -1;
	}
	for (i = 0; i < NPAGES; i++)
		if (i >= f && i < t) {
			if (advice == MADV_DONTDUMP)
				nodump[i] = 1;
			if (advice == MADV_DODUMP)
				nodump[i] = 0;
		}
	return 0;
}
int munlock(const void *a, size_t len)
{
	unsigned int f = 0, t = 0, i;

	CHECK(mapped && range(a, len, &f, &t), "unlock of pages of the mapping");
	for (i = 0; i < NPAGES; i++)
		if (i >= f && i < t) {
			locked[i] = 0;
			CHECK(!secret_len, "never unlocked while it holds secrets");
		}
	return 0;
}
int munmap(void *a, size_t len)
{
	CHECK(a == (void *)arena && mapped && (len + PAGE - 1) / PAGE == mapped, "the whole mapping is given back, once");
#if PAGE != 4096
	if (secret_len)
		CHECK(*the_byte == 0, "wiped before it is given back");
#endif
	unmaps++;
	mapped = 0;
	return 0;
}

HARNESS(h_mem)
{
	size_t len = IN64();
	unsigned int flags = IN32(), i, f, t;
	uint8_t *p, fill = IN8();
	int force = !!(flags & JENT_FORCE_SECURE_MEM), tolerated;

	f_mmap = INBIT();
	f_prot1 = INBIT();
	f_prot2 = INBIT();
	f_lock = INBIT();
	f_madv = INBIT();
	f_errno = IN8();
#if PAGE == 4096
	f_sysconf = INBIT();
#endif
	probe = IN32();
	ASSUME(f_errno);
	tolerated = f_errno == EPERM || f_errno == ENOMEM || f_errno == EAGAIN;
	CHECK(jent_secure_memory_supported() == 1, "this platform locks and wipes");
	CHECK(!!jent_memory_is_secure(flags) == force, "memory is called secure only when it is certain");
	jent_zfree(NULL, len);
	CHECK(!unmaps, "freeing nothing does nothing");

	ASSUME(probe < NPAGES * PAGE);
	the_byte = arena + probe;
	p = jent_zalloc(len, flags);
	if (!p) {
		CHECK(!mapped && maps == unmaps + (unsigned int)(maps && f_mmap) + (unsigned int)(maps && !f_mmap && len > sizeof(arena) - 2 * PAGE), "a failed allocation leaves no mapping");
		CHECK(f_mmap || f_prot1 || f_prot2 || len > sizeof(arena) - 2 * PAGE || (f_lock && (force || !tolerated)), "it fails only for a reason");
		WITNESS_IF(f_lock && force && unmaps, "lock refused");
		WITNESS_IF(!maps && len > SIZE_MAX - 100, "overflow");
		return;
	}
	CHECK(maps == 1 && mapped && !unmaps, "memory of its own mapping");
	CHECK(len <= sizeof(arena) - 2 * PAGE, "the mapping has room for it");
	ASSUME(len <= sizeof(arena) - 2 * PAGE);
	CHECK(!f_lock || (!force && tolerated), "a refused lock is tolerated only when secure memory is optional and the environment forbids it");
	if (len) {
		CHECK(range(p, len, &f, &t), "inside the mapping");
		CHECK(f > 0 && t < mapped, "a page on each side");
		ASSUME(f > 0 && t < mapped && t < NPAGES);
		for (i = 0; i < NPAGES; i++)
			if (i >= f && i < t) {
				CHECK(prot[i] == (PROT_READ | PROT_WRITE), "accessible");
				CHECK(!force || locked[i], "secure memory is locked");
				CHECK(f_lock || locked[i], "the lock is always attempted, for all of it");
				CHECK(f_madv || nodump[i], "and kept out of core dumps");
			}
		CHECK(prot[f - 1] == PROT_NONE && prot[t] == PROT_NONE, "guard pages on both sides");
		CHECK((uintptr_t)p % 16 == 0, "aligned for any object");
		ASSUME(the_byte >= p && the_byte < p + len);
#if PAGE != 4096
		CHECK(*the_byte == 0, "zeroed");
		*the_byte = fill;
#endif
	}
	secret_len = len;
	jent_zfree(p, len);
	CHECK(unmaps == 1 && !mapped, "freed exactly once");
#if PAGE != 4096
	if (len)
		CHECK(*the_byte == 0, "wiped");
#endif
	WITNESS_IF(len == 3 * PAGE && !f_lock, "several pages");
	WITNESS_IF(len == PAGE + 1 && f_lock, "lock tolerated");
}
#else	/* crypto libraries and plain malloc */
#define NB 96
static uint8_t ord[NB], sec[NB];	/* ordinary and secure memory */
static int live[2];
static unsigned int f_heap, f_sec, f_init, f_weak;
static uint8_t garbage;
static size_t probe, the_len;
static int secret;
static void *give(int k, size_t n)
{
	if (n > NB)
		return NULL;
	CHECK(n == the_len, "of the size asked for");
	CHECK(!live[k], "one object at a time");
	live[k] = 1;
	if (probe < NB)
		(k ? sec : ord)[probe] = garbage;
	the_byte = probe < NB ? (k ? sec : ord) + probe : NULL;
	return k ? sec : ord;
}
static void take(void *p, int wipes)
{
	int k = p == (void *)sec;

	if (!p)
		return;
	CHECK((p == (void *)ord || k) && live[k], "freed once");
	if (wipes && the_byte)
		*the_byte = 0;
	if (secret && probe < the_len)
		CHECK(*the_byte == 0, "wiped before it is given back");
	live[k] = 0;
}
#if BACKEND == 1
void *gcry_malloc_secure(size_t n) { return f_sec ? NULL : f_weak ? give(0, n) : give(1, n); }
void *gcry_malloc(size_t n) { return f_heap ? NULL : give(0, n); }
int gcry_is_secure(const void *p) { return p == (const void *)sec; }
void gcry_free(void *p) { take(p, p == (void *)sec); }
# define ONREQ 1
# define SECURE 1
#elif BACKEND == 2
int CRYPTO_secure_malloc_initialized(void) { return !f_init; }
void *OPENSSL_secure_malloc(size_t n) { return f_init ? (f_heap ? NULL : give(0, n)) : f_sec ? NULL : f_weak ? give(0, n) : give(1, n); }
int CRYPTO_secure_allocated(const void *p) { return p == (const void *)sec; }
void OPENSSL_secure_free(void *p) { take(p, p == (void *)sec); }
void *OPENSSL_malloc(size_t n) { return f_heap ? NULL : give(0, n); }
void OPENSSL_free(void *p) { CHECK(p != (void *)sec, "secure memory goes back to the secure heap"); take(p, 0); }
void OPENSSL_cleanse(void *p, size_t n) { vp_memset(p, 0, n); }
# define ONREQ 1
# define SECURE 1
#elif BACKEND == 3
void *OPENSSL_malloc(size_t n) { return f_heap ? NULL : give(0, n); }
void OPENSSL_free(void *p) { take(p, 1); }
void OPENSSL_cleanse(void *p, size_t n) { vp_memset(p, 0, n); }
# define ONREQ 0
# define SECURE 0
#else
void *malloc(size_t n) { return f_heap ? NULL : give(0, n); }
void free(void *p) { take(p, 0); }
# define ONREQ 0
# define SECURE 1
#endif
HARNESS(h_mem)
{
	size_t len = IN64();
	unsigned int flags = IN32();
	int force = !!(flags & JENT_FORCE_SECURE_MEM);
	uint8_t *p, fill = IN8();

	f_heap = INBIT();
	f_sec = INBIT();
	f_init = INBIT();
	f_weak = INBIT();
	garbage = IN8();
	probe = IN32();
	the_len = len;
	ASSUME(len);
	CHECK(jent_secure_memory_supported() == SECURE, "support is reported as it is");
	CHECK(!!jent_memory_is_secure(flags) == (ONREQ ? force : SECURE), "memory is called secure only when it is certain");
	jent_zfree(NULL, len);
	p = jent_zalloc(len, flags);
	if (!p) {
		CHECK(!live[0] && !live[1], "a failed allocation leaves nothing behind");
		CHECK(len > NB || f_heap || (ONREQ && force && (f_sec || f_weak || f_init)), "it fails only for a reason");
		WITNESS_IF(len <= NB, "out of memory");
		return;
	}
	CHECK(live[p == sec] && live[p == ord] == 0, "one live object");
	if (ONREQ)
		CHECK(!force || p == sec, "secure memory when it was demanded");
	ASSUME(probe < len && len <= NB);
	CHECK(the_byte == p + probe && *the_byte == 0, "zeroed");
	*the_byte = fill;
	secret = 1;
	jent_zfree(p, len);
	CHECK(!live[0] && !live[1], "freed");
	WITNESS_IF(p == ord && len == NB, "ordinary memory");
#if ONREQ
	WITNESS_IF(p == sec, "secure memory");
#endif
}
#endif

HARNESS(h_wipe)
{
	static uint8_t buf[80];
	unsigned int i;
	size_t off = IN8(), n = IN8(), k = IN8();

	ASSUME(off <= sizeof(buf) && n <= sizeof(buf) - off && k < sizeof(buf));
	for (i = 0; i < sizeof(buf); i++)
		buf[i] = (uint8_t)(i + 1);
	the_byte = buf + k;
	jent_memset_secure(buf + off, n);
	CHECK(buf[k] == (k >= off && k < off + n ? 0 : (uint8_t)(k + 1)), "exactly the given bytes are wiped");
	WITNESS_IF(n == 70, "wiped");
}
