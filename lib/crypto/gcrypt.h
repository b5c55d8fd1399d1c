/* stand-in: the functions of libgcrypt that the library uses */
#include <stddef.h>
void *gcry_malloc_secure(size_t n);
void *gcry_malloc(size_t n);
void gcry_free(void *p);
int gcry_is_secure(const void *p);
