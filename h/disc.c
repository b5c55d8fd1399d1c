/*
 * What the library learns about the machine: real arch-cache.c, arch-ncpu.c,
 * arch-fips.c over virtual files and system calls.
 */
#include "vp.h"
#include "fmt.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include <fcntl.h>
#include <sys/types.h>
#include <unistd.h>

/* --- exact string functions ------------------------------------------------------ */
char *vp_strstr(const char *h, const char *n);
char *vp_strstr(const char *h, const char *n)
{
	size_t i;

	for (;; h++) {
		for (i = 0; n[i] && h[i] == n[i]; i++)
			;
		if (!n[i])
			return (char *)h;
		if (!*h)
			return NULL;
	}
}
char *vp_strchr(const char *s, int c);
char *vp_strchr(const char *s, int c)
{
	for (;; s++) {
		if (*s == (char)c)
			return (char *)s;
		if (!*s)
			return NULL;
	}
}
int vp_strncmp(const char *a, const char *b, size_t n);
int vp_strncmp(const char *a, const char *b, size_t n)
{
	for (; n; n--, a++, b++) {
		if (*a != *b)
			return (uint8_t)*a < (uint8_t)*b ? -1 : 1;
		if (!*a)
			break;
	}
	return 0;
}
#undef memset
void *vp_memset(void *p, int c, size_t n);
void *vp_memset(void *p, int c, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++)
		((uint8_t *)p)[i] = (uint8_t)c;
	return p;
}
long vp_strtol(const char *s, char **end, int base);
long vp_strtol(const char *s, char **end, int base)
{
	const char *p = s;
	int neg = 0, any = 0, over = 0;
	unsigned long v = 0, lim;

	CHECK(base == 10, "decimal");
	while (*p == ' ' || (*p >= '\t' && *p <= '\r'))
		p++;
	if (*p == '+' || *p == '-')
		neg = *p++ == '-';
	lim = (unsigned long)LONG_MAX + (unsigned long)neg;
	for (; *p >= '0' && *p <= '9'; p++) {
		unsigned long d = (unsigned long)(*p - '0');

		any = 1;
		if (over || v > (lim - d) / 10)
			over = 1;
		else
			v = v * 10 + d;
	}
	if (end)
		*end = (char *)(any ? p : s);
	if (over) {
		errno = ERANGE;
		return neg ? LONG_MIN : LONG_MAX;
	}
	return neg ? (long)(0 - v) : (long)v;
}

/* --- virtual files ------------------------------------------------------------------ */
#ifndef NCPU
# define NCPU 1
#endif
#ifndef NIDX
# define NIDX 1
#endif
#define FLEN 34
static long v_conf = NCPU, v_sc[3], v_onln;
static unsigned int fds, intr;
static int fd_live, fd_file, file_at;	/* fd_file: the last one opened, or tried */
static uint8_t present[NCPU * NIDX];	/* the directory exists */
static uint8_t a_ok[NCPU * NIDX * 3];	/* its attributes type, level, size do */
static char content[NCPU * NIDX * 3 * FLEN];
static uint8_t clen[NCPU * NIDX * 3];
static char single[FLEN];
static uint8_t single_len, single_ok;
static const char *single_path;
static unsigned int opens;

static const char *skip(const char *p, const char *w)
{
	while (p && *w)
		if (*p++ != *w++)
			return NULL;
	return p;
}
static const char *num(const char *p, unsigned int *v)
{
	*v = 0;
	if (!p || *p < '0' || *p > '9')
		return NULL;
	while (*p >= '0' && *p <= '9')
		*v = *v * 10 + (unsigned int)(*p++ - '0');
	return p;
}
int vp_open(const char *path, int flags, ...)
{
	const char *p, *q;
	unsigned int cpu = 0, idx = 0, a;
	static const char *const attr[3] = { "type", "level", "size" };

	opens++;
	CHECK((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)), "opened for reading");
	CHECK(!fd_live, "one descriptor at a time");
	if (single_path) {
		p = skip(path, single_path);
		CHECK(p && !*p, "the file that holds the answer");
		fd_file = 1000;
		file_at = 0;
		errno = ENOENT;
		fd_live = single_ok;
		return fd_live ? 5 : -1;
	}
	p = num(skip(path, "/sys/devices/system/cpu/cpu"), &cpu);
	p = num(skip(p, "/cache/index"), &idx);
	CHECK(p != NULL, "a file of a CPU's cache");
	ASSUME(p != NULL);
	CHECK(cpu < (unsigned int)(v_conf > 0 ? v_conf : 1), "a configured CPU");
	errno = ENOENT;
	if (cpu >= NCPU || idx >= NIDX)
		return -1;
	for (a = 0; a < 3; a++) {
		q = skip(p, "/");
		q = skip(q, attr[a]);
		if (q && !*q) {
			fd_file = (int)((cpu * NIDX + idx) * 3 + a);
			file_at = 0;
			fd_live = present[cpu * NIDX + idx] && a_ok[fd_file];
			return fd_live ? 5 : -1;
		}
	}
	return -1;
}
ssize_t vp_read(int fd, void *buf, size_t n)
{
	size_t i, len;
	const char *src;

	CHECK(fd == 5 && fd_live, "reads what it opened");
	if (intr && INBIT()) {
		intr--;
		errno = EINTR;
		return -1;
	}
	src = fd_file == 1000 ? single : content + fd_file * FLEN;
	len = fd_file == 1000 ? single_len : clen[fd_file];
	if (file_at >= (int)len)
		return 0;
	len -= (size_t)file_at;
	if (len > n)
		len = n;
	for (i = 0; i < FLEN; i++)
		if (i < len)
			((char *)buf)[i] = src[file_at + (int)i];
	file_at += (int)len;
	return (ssize_t)len;
}
int vp_close(int fd)
{
	CHECK(fd == 5 && fd_live, "closes what it opened");
	fd_live = 0;
	return 0;
}
long vp_sysconf(int name)
{
	switch (name) {
#ifdef _SC_LEVEL1_DCACHE_SIZE
	case _SC_LEVEL1_DCACHE_SIZE: return v_sc[0];
	case _SC_LEVEL2_CACHE_SIZE: return v_sc[1];
	case _SC_LEVEL3_CACHE_SIZE: return v_sc[2];
#endif
	case _SC_NPROCESSORS_CONF: return v_conf;
	case _SC_NPROCESSORS_ONLN: return v_onln;
	default: return -1;
	}
}

/* --- caches -------------------------------------------------------------------------- */
static void put(unsigned int f, const char *s)
{
	unsigned int i;

	for (i = 0; s[i]; i++)
		content[f * FLEN + i] = s[i];
	content[f * FLEN + i] = '\n';
	i++;
	clen[f] = (uint8_t)i;
}
static void roundup(uint64_t sum, uint32_t got)
{
	if (!sum)
		CHECK(got == 0, "unknown caches are reported as unknown");
	else if (sum < (uint64_t)1 << 31) {
		CHECK(got && (got & (got - 1)) == 0, "a power of two");
		CHECK(got > sum, "larger than the caches");
		CHECK(got / 2 <= sum, "and the smallest such");
	}
}
static void answer(uint64_t l1, uint64_t l2, uint64_t l3)
{
	uint32_t a, b;
	int first = INBIT();
	unsigned int o;

	a = jent_cache_size_roundup(first);
	o = opens;
	b = jent_cache_size_roundup(!first);
	roundup(l1, first ? b : a);
	roundup(l1 + l2 + l3, first ? a : b);
	CHECK(jent_cache_size_roundup(first) == a && jent_cache_size_roundup(!first) == b, "the answer does not change");
	CHECK(jent_cache_size_roundup(7) == (first ? a : b), "any true value asks for all caches");
	CHECK(!fd_live, "no descriptor is left open");
	(void)o;
}
static void fallback(uint64_t *m)
{
	unsigned int i;

	if (m[0] == 0)
		for (i = 0; i < 3; i++)
			if (v_sc[i] > 0 && (uint64_t)v_sc[i] > m[i])
				m[i] = (uint64_t)v_sc[i];
}
static void sysconf_values(void)
{
	unsigned int i;

	for (i = 0; i < 3; i++) {
		v_sc[i] = (long)(int32_t)IN32();
		ASSUME(v_sc[i] >= -1 && v_sc[i] < 1 << 28);
	}
}

/* which caches count: all CPUs, all indices */
HARNESS(h_walk)
{
	static const char *const types[3] = { "Data", "Instruction", "Unified" };
	static const char *const levels[4] = { "1", "2", "3", "4" };
	unsigned int c, i, a, t, l, n, f, k;
	uint64_t m[3] = { 0, 0, 0 };
	int gone;

	v_conf = NCPU;
	intr = INTR;
	for (c = 0; c < NCPU; c++) {
		gone = 0;
		for (i = 0; i < NIDX; i++) {
			f = (c * NIDX + i) * 3;
			present[c * NIDX + i] = INBIT();
			for (a = 0; a < 3; a++)
				a_ok[f + a] = INBIT();
			t = IN8() % 3;
			l = IN8() & 3;
			n = IN8();
			ASSUME(n >= 1 && n <= 9);
			for (k = 0; k < 3; k++)
				if (k == t)
					put(f, types[k]);
			for (k = 0; k < 4; k++)
				if (k == l)
					put(f + 1, levels[k]);
			k = INBIT();
			content[(f + 2) * FLEN] = (char)('0' + n);
			content[(f + 2) * FLEN + 1] = k ? 'M' : 'K';
			content[(f + 2) * FLEN + 2] = '\n';
			clen[f + 2] = 3;
			if (!present[c * NIDX + i] || !a_ok[f + 0])
				gone = 1;
			if (gone || t == 1 || !a_ok[f + 1] || !a_ok[f + 2])
				continue;
			n <<= k ? 20 : 10;
			l = l > 2 ? 2 : l;
			if (n > m[l])
				m[l] = n;
		}
	}
	sysconf_values();
	fallback(m);
	answer(m[0], m[1], m[2]);
	WITNESS_IF(m[0] == 4 << 10 && m[2] == 7 << 20, "sizes");
	WITNESS_IF(m[0] == 0, "nothing known");
}

/* how one attribute is read: any text */
static int wellformed(const char *s, unsigned int len, uint64_t *v, int suffix)
{
	unsigned int i = 0;

	*v = 0;
	while (i < len && s[i] >= '0' && s[i] <= '9')
		*v = *v * 10 + (uint64_t)(s[i++] - '0');
	if (!i || !*v)
		return 0;
	if (suffix && i < len && (s[i] == 'K' || s[i] == 'M'))
	{
		*v <<= s[i] == 'K' ? 10 : 20;
		i++;
	}
	return i + 1 == len && s[i] == '\n';
}
#ifndef TLEN
# define TLEN 6
#endif
HARNESS(h_size)
{
	unsigned int i;
	uint64_t v;
	int ok, digit = 0;

	v_conf = 1;
	present[0] = 1;
	for (i = 0; i < 3; i++)
		a_ok[i] = 1;
	put(0, "Data");
	put(1, "1");
	clen[2] = IN8();
	ASSUME(clen[2] <= TLEN);
	for (i = 0; i < TLEN; i++) {
		content[2 * FLEN + i] = (char)IN8();
		if (i < clen[2] && content[2 * FLEN + i] >= '0' && content[2 * FLEN + i] <= '9')
			digit = 1;
	}
	ok = wellformed(content + 2 * FLEN, clen[2], &v, 1);
	if (ok)
		answer(v, 0, 0);
	else if (!digit)
		answer(0, 0, 0);
	else {
		/* anything, but safely */
		uint32_t r = jent_cache_size_roundup(0);

		CHECK((r & (r - 1)) == 0, "a power of two, or unknown");
	}
	WITNESS_IF(ok && v == 48 << 10, "48K");
	WITNESS_IF(ok && v == 7, "7");
	WITNESS_IF(!digit, "garbage");
}
/* a text that fills the buffer is not trusted; a number of any size is safe */
HARNESS(h_long)
{
	unsigned int i, n = IN8(), k = IN8() % 3;
	uint32_t r;
	uint64_t v = 0;

	v_conf = 1;
	present[0] = 1;
	for (i = 0; i < 3; i++)
		a_ok[i] = 1;
	put(0, "Data");
	put(1, "1");
	ASSUME(n >= 17 && n <= 33);
	for (i = 0; i < 33; i++)
		content[2 * FLEN + i] = i + 1 >= n ? '\n' : i + 2 == n && k ? (k == 1 ? 'K' : 'M') : (char)('0' + (i < n - 4 ? (int)(ZEROS ? 0 : 9) : 5));
	clen[2] = (uint8_t)n;
	if (ZEROS)
		v = k == 0 ? 555 : (uint64_t)55 << (k == 1 ? 10 : 20);
	r = jent_cache_size_roundup(0);
	if (ZEROS && n < 32)
		roundup(v, r);
	else if (ZEROS)
		CHECK(r == 0, "a text that may have been cut off is ignored");
	CHECK((r & (r - 1)) == 0, "a power of two, or unknown");
	WITNESS_IF(n == 33, "longest");
	WITNESS_IF(n == 20 && k == 2, "overflow");
}
/* a number whose unit takes it out of range is no size */
HARNESS(h_huge)
{
	static const char *const text[8] = { "18014398509481985K", "17592186044417M", "9007199254740992K", "8796093022208M", "9223372036854775808", "36893488147419103233", "18446744073709551617K", "27021597764222977K" };
	unsigned int i, k = IN8() & 7;

	v_conf = 1;
	present[0] = 1;
	for (i = 0; i < 3; i++)
		a_ok[i] = 1;
	put(0, "Data");
	put(1, "1");
	for (i = 0; i < 8; i++)
		if (i == k)
			put(2, text[i]);
	sysconf_values();
	answer(v_sc[0] > 0 ? (uint64_t)v_sc[0] : 0, v_sc[1] > 0 ? (uint64_t)v_sc[1] : 0, v_sc[2] > 0 ? (uint64_t)v_sc[2] : 0);
	WITNESS_IF(k == 1 && v_sc[0] == 32768, "32 kB from the system");
}
HARNESS(h_level)
{
	unsigned int i;
	uint64_t v, m[3] = { 0, 0, 0 };
	int ok, digit = 0;

	v_conf = 1;
	present[0] = 1;
	for (i = 0; i < 3; i++)
		a_ok[i] = 1;
	put(0, "Unified");
	put(2, "64K");
	clen[1] = IN8();
	ASSUME(clen[1] <= 3);
	for (i = 0; i < 3; i++) {
		content[1 * FLEN + i] = (char)IN8();
		if (i < clen[1] && content[1 * FLEN + i] >= '0' && content[1 * FLEN + i] <= '9')
			digit = 1;
	}
	ok = wellformed(content + FLEN, clen[1], &v, 0);
	if (ok)
		m[v > 2 ? 2 : v - 1] = 65536;
	if (ok || !digit)
		answer(m[0], m[1], m[2]);
	WITNESS_IF(ok && v == 12, "level 12");
	WITNESS_IF(!ok && !digit, "no level");
}
/* any type text */
HARNESS(h_type)
{
	static const char d[4] = "Data", u[7] = "Unified";
	unsigned int i;
	int isd = 1, isu = 1;
	uint64_t m = 0;

	v_conf = (long)IN8() - 2;
	ASSUME(v_conf <= 1);
	present[0] = 1;
	for (i = 0; i < 3; i++)
		a_ok[i] = 1;
	put(1, "1");
	put(2, "64K");
	clen[0] = IN8();
	ASSUME(clen[0] >= 1 && clen[0] <= 9);
	for (i = 0; i < 9; i++) {
		content[0 * FLEN + i] = (char)IN8();
		if (i >= clen[0])
			content[0 * FLEN + i] = 0;
	}
	for (i = 0; i < 4; i++)
		isd &= content[0 * FLEN + i] == d[i];
	for (i = 0; i < 7; i++)
		isu &= content[0 * FLEN + i] == u[i];
	/* names that merely begin so do not exist */
	ASSUME(!isd || (clen[0] == 5 && content[0 * FLEN + 4] == '\n'));
	ASSUME(!isu || (clen[0] == 8 && content[0 * FLEN + 7] == '\n'));
	if (isd || isu)
		m = 65536;
	answer(m, 0, 0);
	WITNESS_IF(isu, "unified");
	WITNESS_IF(v_conf < 1, "number of CPUs unknown");
}

/* --- FIPS mode -------------------------------------------------------------------------- */
HARNESS(h_fips)
{
	unsigned int i;
	int r;

	single_path = "/proc/sys/crypto/fips_enabled";
	single_ok = INBIT();
	single_len = IN8();
	ASSUME(single_len <= 4);
	for (i = 0; i < 4; i++)
		single[i] = (char)IN8();
	intr = 2;
	r = jent_fips_enabled();
	CHECK(!!r == (single_ok && single_len && single[0] == '1'), "FIPS mode is what the kernel says, off when it says nothing");
	CHECK(!fd_live, "no descriptor is left open");
	WITNESS_IF(r && intr == 0, "enabled");
	WITNESS_IF(!r && single_ok && single_len == 2 && single[0] == '0', "disabled");
}
