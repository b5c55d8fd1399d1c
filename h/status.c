/*
 * The status document: real status.c and base.c's size helpers' stand-ins. The
 * formats are recorded with their values (lib/fmt.h), so the text is concrete
 * and can be parsed here as the JSON it has to be, while the values are
 * symbolic.
 */
#include "vp.h"
#include "fmt.h"
#include "jitterentropy.h"
#include "jitterentropy-base.h"
#include "jitterentropy-internal.h"

static long v_ncpu;
static uint32_t v_l1, v_all, v_mem, v_hash;
static unsigned int v_flags;
long jent_ncpu(void) { return v_ncpu; }
uint32_t jent_cache_size_roundup(int all) { return all ? v_all : v_l1; }
uint32_t jent_memsize(unsigned int flags) { CHECK(flags == v_flags, "of the collector's flags"); return v_mem; }
unsigned int jent_hashloop_cnt(unsigned int flags) { CHECK(flags == v_flags, "of the collector's flags"); return v_hash; }
int jent_memory_is_secure(unsigned int flags) { return !!(flags & JENT_FORCE_SECURE_MEM); }

/* continues where the previous scan of the same growing text ended */
static const char *sl_at;
static size_t sl_len;
size_t vp_strlen(const char *s);
size_t vp_strlen(const char *s)
{
	size_t n = 0;

	if (s == sl_at && sl_len && s[0] && s[sl_len / 2] && s[sl_len - 1])
		n = sl_len;
	while (s[n])
		n++;
	sl_at = s;
	sl_len = n;
	return n;
}

static struct rand_data ec;
#ifndef SIZE
# define SIZE 100
#endif
static char text[SIZE + 8];

/* --- an independent reader of the document: finds the value at a path ------------ */
static unsigned int rd_p, rd_v;		/* piece, value */
static size_t rd_o;			/* offset in its format */
static int bad;
/* the character at the cursor; '#' stands for a value */
static char cur(void)
{
	while (rd_p < fmt_np && !fmt_piece[rd_p][rd_o]) {
		rd_p++;
		rd_o = 0;
	}
	if (rd_p >= fmt_np)
		return 0;
	return fmt_piece[rd_p][rd_o] == '%' ? '#' : fmt_piece[rd_p][rd_o];
}
static void step(void)
{
	if (cur() == '#') {
		rd_o++;
		while (fmt_piece[rd_p][rd_o] == 'l' || fmt_piece[rd_p][rd_o] == 'z')
			rd_o++;
		rd_v++;
	}
	rd_o++;
}
static void ws(void)
{
	char c = cur();

	while (c == ' ' || c == '\n' || c == '\t') {
		step();
		c = cur();
	}
}
/* a string: its hash, and which value it holds */
static uint64_t add(uint64_t h, char c)
{
	return (h ^ (uint8_t)c) * 0x100000001b3ULL;
}
static unsigned int str_val;
static uint64_t string(uint64_t h, int key)
{
	char c;

	str_val = FMT_MAX;
	if (cur() != '"') {
		bad = 1;
		return 0;
	}
	step();
	for (c = cur(); c && c != '"'; c = cur()) {
		if (c == '#' && key && rd_v < fmt_n && rd_v < FMT_MAX && fmt_str[rd_v]) {
			/* a name that is itself a parameter */
			const char *k = fmt_str[rd_v];

			while (*k)
				h = add(h, *k++);
			step();
			continue;
		}
		if (c == '#')
			str_val = rd_v;
		h = add(h, c);
		step();
	}
	if (c != '"')
		bad = 1;
	step();
	return add(h, '/');
}
/* objects of strings, values and objects: all the document may hold */
#define MAXDEPTH 4
static uint64_t path[FMT_MAX];		/* of each value */
static void parse(void)
{
	unsigned int depth = 1;
	int after_comma = 0, first = 1;
	uint64_t at[MAXDEPTH + 1] = { 0 }, key;
	char c;

	rd_p = rd_v = 0;
	rd_o = 0;
	bad = 0;
	ws();
	if (cur() != '{') {
		bad = 1;
		return;
	}
	step();
	while (!bad && depth) {
		ws();
		c = cur();
		if (c == '}') {
			bad |= after_comma;
			step();
			depth--;
			first = 0;
			continue;
		}
		if (!first && !after_comma && c == '#' && rd_v < fmt_n && rd_v < FMT_MAX && fmt_str[rd_v]) {
			/* a separator that is a parameter, or none */
			const char *k = fmt_str[rd_v];

			if (k[0] == ',' && !k[1])
				after_comma = 1;
			else
				bad |= k[0] != 0;
			step();
			continue;
		}
		if (!first && !after_comma) {
			bad |= c != ',';
			step();
			after_comma = 1;
			continue;
		}
		key = string(at[depth], 1);
		ws();
		if (bad || cur() != ':') {
			bad = 1;
			break;
		}
		step();
		ws();
		first = after_comma = 0;
		c = cur();
		if (c == '{') {
			if (depth >= MAXDEPTH) {
				bad = 1;
				break;
			}
			at[++depth] = key;
			step();
			first = 1;
		} else if (c == '"') {
			(void)string(0, 0);
			if (str_val < FMT_MAX)
				path[str_val] = key;
		} else if (c == '#') {
			if (rd_v < FMT_MAX)
				path[rd_v] = key;
			step();
		} else if ((c >= '0' && c <= '9') || c == '-') {
			while ((cur() >= '0' && cur() <= '9') || cur() == '-' || cur() == '.')
				step();
		} else if (c == 't' || c == 'f') {
			while (cur() >= 'a' && cur() <= 'z')
				step();
		} else
			bad = 1;
	}
	if (depth)
		bad = 1;
	ws();
	if (cur())
		bad = 1;
}
static uint64_t name(uint64_t h, const char *s)
{
	if (!s)
		return h;
	while (*s)
		h = add(h, *s++);
	return add(h, '/');
}
static unsigned int lookup(const char *a, const char *b, const char *c)
{
	uint64_t h = name(name(name(0, a), b), c);
	unsigned int i, n = 0, at = 0;

	for (i = 0; i < fmt_n && i < FMT_MAX; i++)
		if (path[i] == h) {
			n++;
			at = i;
		}
	CHECK(n == 1, "the field is there once");
	ASSUME(n == 1);
	return at;
}
static void is_num(const char *a, const char *b, const char *c, uint64_t v)
{
	unsigned int i = lookup(a, b, c);

	CHECK(!fmt_str[i] && (uint64_t)fmt_val[i] == v, "the field shows the collector's value");
}
static void is_bool(const char *a, const char *b, const char *c, int v)
{
	unsigned int i = lookup(a, b, c);
	const char *s = fmt_str[i];
	int t;

	CHECK(s != NULL, "a truth value");
	ASSUME(s != NULL);
	t = s[0] == 't' && s[1] == 'r' && s[2] == 'u' && s[3] == 'e' && !s[4];
	CHECK(t || (s[0] == 'f' && s[1] == 'a' && s[2] == 'l' && s[3] == 's' && s[4] == 'e' && !s[5]), "true or false");
	CHECK(t == !!v, "the field shows the collector's state");
}

static void collector(void)
{
	v_flags = IN32();
	v_ncpu = (long)(IN32() & INT32_MAX);
	v_l1 = IN32();
	v_all = IN32();
	v_mem = IN32();
	v_hash = IN8();
	ec.flags = v_flags;
	ec.osr = IN32();
	ec.reinit_count = IN32();
	ec.read_invocations = IN64();
	ec.bytes_output = IN64();
	ASSUME(ec.bytes_output < UINT64_MAX / 8);
	ec.health_failure = IN32();
	ec.memaccessloops = IN16();
	ec.enable_notime = INBIT();
	ec.is_fips_enabled = INBIT();
}

#define RUNTIME "runtimeEnvironment"
HARNESS(h_values)
{
	unsigned int i;

	fmt_pieces = 1;
	collector();
	CHECK(jent_status(&ec, text, SIZE) == 0, "fits");
	CHECK(fmt_np < FMT_PIECES, "bounded");
	CHECK(!fmt_bad, "formats are understood");
	parse();
	CHECK(!bad, "well-formed JSON");
	i = lookup("uuid", NULL, NULL);
	CHECK(fmt_str[i] == ec.uuid, "the collector's identifier");
	is_num("reinitializations", NULL, NULL, ec.reinit_count);
	is_num("output", "invocations", NULL, ec.read_invocations);
	is_num("output", "bytes", NULL, ec.bytes_output);
	is_num("output", "bits", NULL, ec.bytes_output * 8);
	is_bool("healthFailure", "apt", "intermittent", ec.health_failure & JENT_APT_FAILURE);
	is_bool("healthFailure", "apt", "permanent", ec.health_failure & JENT_APT_FAILURE_PERMANENT);
	is_bool("healthFailure", "rct", "intermittent", ec.health_failure & JENT_RCT_FAILURE);
	is_bool("healthFailure", "rct", "permanent", ec.health_failure & JENT_RCT_FAILURE_PERMANENT);
	is_bool("healthFailure", "rctMemory", "intermittent", ec.health_failure & JENT_RCT_MEM_FAILURE);
	is_bool("healthFailure", "rctMemory", "permanent", ec.health_failure & JENT_RCT_MEM_FAILURE_PERMANENT);
	is_bool("healthFailure", "lag", "intermittent", ec.health_failure & JENT_LAG_FAILURE);
	is_bool("healthFailure", "lag", "permanent", ec.health_failure & JENT_LAG_FAILURE_PERMANENT);
	is_num(RUNTIME, "cpuCores", NULL, (uint64_t)v_ncpu);
	is_num(RUNTIME, "cpuCache", "l1Bytes", v_l1);
	is_num(RUNTIME, "cpuCache", "allBytes", v_all);
	is_num("configuration", "osr", NULL, ec.osr);
	is_num("configuration", "memoryBlockSizeBytes", NULL, v_mem);
	is_num("configuration", "hashLoopCount", "runtime", v_hash);
	is_num("configuration", "hashLoopCount", "initialization", (uint64_t)v_hash * JENT_HASH_LOOP_INIT);
	is_num("configuration", "memoryLoopCount", "runtime", ec.memaccessloops);
	is_num("configuration", "memoryLoopCount", "initialization", (uint64_t)ec.memaccessloops * JENT_MEM_ACC_LOOP_INIT);
	is_bool("configuration", "secureMemory", NULL, ec.flags & JENT_FORCE_SECURE_MEM);
	is_bool("configuration", "internalTimer", NULL, ec.enable_notime);
	is_bool("configuration", "fipsMode", NULL, ec.is_fips_enabled);
	is_bool("configuration", "ntg1Mode", NULL, ec.flags & JENT_NTG1);
	is_bool("configuration", "flags", "JENT_DISABLE_MEMORY_ACCESS", ec.flags & JENT_DISABLE_MEMORY_ACCESS);
	is_bool("configuration", "flags", "JENT_FORCE_INTERNAL_TIMER", ec.flags & JENT_FORCE_INTERNAL_TIMER);
	is_bool("configuration", "flags", "JENT_DISABLE_INTERNAL_TIMER", ec.flags & JENT_DISABLE_INTERNAL_TIMER);
	is_bool("configuration", "flags", "JENT_FORCE_FIPS", ec.flags & JENT_FORCE_FIPS);
	is_bool("configuration", "flags", "JENT_NTG1", ec.flags & JENT_NTG1);
	is_bool("configuration", "flags", "JENT_CACHE_ALL", ec.flags & JENT_CACHE_ALL);
	is_bool("configuration", "flags", "JENT_FORCE_SECURE_MEM", ec.flags & JENT_FORCE_SECURE_MEM);
	WITNESS("read");
}

/* --- no room -------------------------------------------------------------------- */
static size_t length(const char *s, size_t max)
{
	size_t i = 0;

	while (i < max && s[i])
		i++;
	return i;
}
#ifndef LO
# define LO 1
# define HI 1
#endif
static char ref[SIZE + 8];
static void fits(size_t full, size_t n, int null)
{
	size_t i, l;
	int ret;

	for (i = 0; i < n + 4; i++)
		text[i] = '~';
	fmt_n = fmt_np = 0;
	sl_at = NULL;
	ret = jent_status(null ? NULL : &ec, text, n);
	for (i = n; i < n + 4; i++)
		CHECK(text[i] == '~', "nothing is written beyond the buffer");
	l = length(text, n);
	CHECK(l < n, "terminated inside the buffer");
	for (i = 0; i < l; i++)
		CHECK(text[i] == ref[i], "a truncated document is the beginning of the whole");
	if (ret == 0)
		CHECK(l == full, "success means that the document is complete");
	else
		CHECK(ret == -1 && full + 1 >= n, "a document that fits is delivered");
	if (full + 1 < n)
		CHECK(ret == 0, "a document that fits is delivered");
}
HARNESS(h_room)
{
	size_t full, n;

	fmt_pieces = 3;
	collector();
	CHECK(jent_status(&ec, NULL, 10) == -1 && jent_status(&ec, text, 0) == -1, "no buffer");
	CHECK(jent_status(&ec, ref, SIZE) == 0, "fits");
	full = length(ref, SIZE);
	for (n = LO; n <= HI; n++)
		fits(full, HI > 50 ? full + n - 50 : n, 0);
	WITNESS("done");
}
HARNESS(h_room_null)
{
	size_t full, n;

	CHECK(jent_status(NULL, ref, SIZE) == 0, "the version alone");
	full = length(ref, SIZE);
	for (n = 1; n <= full + 3; n++)
		fits(full, n, 1);
	WITNESS("done");
}
