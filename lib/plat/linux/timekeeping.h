#include <stdint.h>
uint64_t ktime_get_ns(void);
