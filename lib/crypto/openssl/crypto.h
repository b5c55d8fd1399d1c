/* stand-in: the functions of OpenSSL and AWS-LC that the library uses */
#include <stddef.h>
int CRYPTO_secure_malloc_initialized(void);
void *OPENSSL_secure_malloc(size_t n);
int CRYPTO_secure_allocated(const void *p);
void OPENSSL_secure_free(void *p);
void *OPENSSL_malloc(size_t n);
void OPENSSL_free(void *p);
void OPENSSL_cleanse(void *p, size_t n);
