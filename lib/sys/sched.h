/*
 * The CPU set interface with small sets: the code sees a system whose fixed
 * set holds 64 CPUs instead of 1024, and growing sets from a model allocator.
 */
#include_next <sched.h>
#ifndef VP_SCHED_H
#define VP_SCHED_H
#undef CPU_SETSIZE
#define CPU_SETSIZE 64
#undef CPU_ALLOC
#undef CPU_FREE
#undef CPU_COUNT_S
#define CPU_ALLOC(n)	vp_cpu_alloc(n)
#define CPU_FREE(s)	vp_cpu_free(s)
#define CPU_COUNT_S(z, s) vp_cpu_count(z, s)
cpu_set_t *vp_cpu_alloc(size_t n);
void vp_cpu_free(cpu_set_t *s);
int vp_cpu_count(size_t size, const cpu_set_t *s);
#ifdef VP_NOGLIBC
# undef __GLIBC__
#endif
#endif
