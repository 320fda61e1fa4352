#include <stdlib.h>
void *h_malloc(size_t n);
void h_free(void *p);
#define SLJIT_MALLOC(size, allocator_data) h_malloc(size)
#define SLJIT_FREE(ptr, allocator_data) h_free(ptr)
