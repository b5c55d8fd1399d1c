#include <stddef.h>
void get_random_bytes(void *b, size_t n);
