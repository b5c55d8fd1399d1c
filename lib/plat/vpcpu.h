/* CPUs of the kernel, answered by the harness */
#ifndef VPCPU_H
#define VPCPU_H
#include <stdint.h>
typedef uint64_t u64;
void cpus_read_lock(void);
void cpus_read_unlock(void);
int vp_online(int cpu);
#define for_each_online_cpu(c) for ((c) = 0; (c) < NCPU; (c)++) if (!vp_online(c)) { } else
int smp_call_function_single(int cpu, void (*fn)(void *), void *info, int wait);
struct vp_cpuinfo { int cpuid_level; unsigned int extended_cpuid_level; };
extern struct vp_cpuinfo boot_cpu_data;
void cpuid_count(unsigned int leaf, unsigned int sub, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d);
void isb(void);
u64 vp_read_sysreg(int reg);
void vp_write_sysreg(u64 v, int reg);
enum { clidr_el1, ccsidr_el1, csselr_el1, id_aa64mmfr2_el1 };
#define read_sysreg(r) vp_read_sysreg(r)
#define write_sysreg(v, r) vp_write_sysreg(v, r)
#endif
