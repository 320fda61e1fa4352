/* The allocator the intermediate code's compiler is given: counts, refuses on demand, notices what is not freed. */
#include <stddef.h>
extern void *err_malloc(size_t n, void *data);
extern void err_free(void *p, void *data);
#define SLJIT_MALLOC(size, data) err_malloc((size), (data))
#define SLJIT_FREE(ptr, data) err_free((ptr), (data))
