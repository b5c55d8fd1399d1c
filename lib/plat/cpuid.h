/* the compiler's CPUID wrapper, answered by the harness */
int vp_cpuid(unsigned int leaf, unsigned int sub, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d);
#define __get_cpuid_count vp_cpuid
