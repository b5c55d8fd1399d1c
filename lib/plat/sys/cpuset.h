#ifndef VP_CPUSET_H
#define VP_CPUSET_H
#include <stddef.h>
#include <stdint.h>
#undef CPU_SETSIZE
#undef CPU_ZERO
#undef CPU_SET
#define CPU_SETSIZE 1024
typedef struct { uint64_t b[16]; } cpuset_t;
void vp_cpu_zero(cpuset_t *s);
void vp_cpu_set(int n, cpuset_t *s);
#define CPU_ZERO(s) vp_cpu_zero(s)
#define CPU_SET(n, s) vp_cpu_set((n), (s))
#define CPU_LEVEL_WHICH 3
#define CPU_WHICH_TID 1
int cpuset_setaffinity(int level, int which, int64_t id, size_t n, const cpuset_t *s);
#endif
