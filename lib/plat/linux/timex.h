unsigned long random_get_entropy(void);
