#include "windows.h"
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 2
NTSTATUS BCryptGenRandom(void *alg, uint8_t *buf, ULONG n, ULONG flags);
