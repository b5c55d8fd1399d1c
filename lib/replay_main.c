/* Native side of a replay: feeds the counterexample to the harness. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
static uint64_t *vals; static size_t n, pos;
uint64_t vp_next(void) { return pos < n ? vals[pos++] : 0; }
void vp_fail(const char *msg, const char *file, int line)
{ printf("REPLAY-VIOLATION: %s (%s:%d)\n", msg, file, line); fflush(stdout); _Exit(42); }
void vp_nope(const char *what)
{ printf("REPLAY-ASSUMPTION-FALSE: %s\n", what); fflush(stdout); _Exit(77); }
void VP_ENTRY(void);
int main(int argc, char **argv)
{
	FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
	unsigned long long v; size_t cap = 0;
	while (f && fscanf(f, "%llu", &v) == 1) {
		if (n == cap) { cap = cap ? cap * 2 : 256; vals = realloc(vals, cap * sizeof(*vals)); }
		vals[n++] = v;
	}
	if (f) fclose(f);
	VP_ENTRY();
	printf("REPLAY-NO-VIOLATION (%zu of %zu inputs used)\n", pos, n);
	return 0;
}
