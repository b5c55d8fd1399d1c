#ifndef VP_MACH_H
#define VP_MACH_H
#include <stdint.h>
typedef int integer_t;
typedef int kern_return_t;
typedef unsigned int mach_port_t;
typedef integer_t *thread_policy_t;
typedef struct { integer_t affinity_tag; } thread_affinity_policy_data_t;
#define KERN_SUCCESS 0
#define KERN_NOT_SUPPORTED 46
#define THREAD_AFFINITY_POLICY 4
#define THREAD_AFFINITY_POLICY_COUNT 1
kern_return_t thread_policy_set(mach_port_t t, unsigned int flavor, thread_policy_t p, unsigned int count);
uint64_t mach_absolute_time(void);
#endif
