/* The memory of sljit's compilers and of the code can be refused on demand. */
#include <stddef.h>
extern void *refuse_malloc(size_t n);
extern int refuse_exec(void);
#define SLJIT_MALLOC(size, data) refuse_malloc(size)
#define SLJIT_MALLOC_EXEC(size, data) (refuse_exec() ? NULL : SLJIT_BUILTIN_MALLOC_EXEC((size), (data)))
