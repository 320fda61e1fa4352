/* Executable memory that ends at an inaccessible page, at low, middle and high addresses. */
#ifndef LIREXEC_H
#define LIREXEC_H
#define LIREXEC 1
void *lirexec_alloc(unsigned long size); void lirexec_free(void *p);
#define SLJIT_MALLOC_EXEC(size, data) lirexec_alloc(size)
#define SLJIT_FREE_EXEC(p, data) lirexec_free(p)
#endif
