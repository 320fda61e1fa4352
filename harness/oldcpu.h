/* sljit asks a processor that lacks some instructions: it is compiled as by a compiler for which it uses the
 * functions below, and their answers are masked (lir_cpu_off: 1 lzcnt, 2 tzcnt, 4 cmov, 8 avx2, 16 avx). */
#ifndef OLDCPU_H
#define OLDCPU_H
#define OLDCPU 1
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stddef.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <limits.h>
#include <math.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/resource.h>
#include <cpuid.h>
#include <immintrin.h>
extern unsigned lir_cpu_off;
static inline int oldcpu_id(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
  __cpuid_count(leaf, sub, *a, *b, *c, *d);
  if (leaf == 7 && (lir_cpu_off & 2)) *b &= ~(1u << 3);
  if (leaf == 7 && (lir_cpu_off & 24)) *b &= ~(1u << 5);
  if (leaf == 1 && (lir_cpu_off & 16)) *c &= ~(1u << 28);
  if (leaf == 1 && (lir_cpu_off & 4)) *d &= ~(1u << 15);
  if (leaf == 0x80000001u && (lir_cpu_off & 1)) *c &= ~(1u << 5);
  return 1;
}
static inline unsigned long oldcpu_xcr0(void) { unsigned lo, hi; __asm__("xgetbv" : "=a"(lo), "=d"(hi) : "c"(0)); return lo; }
#define __get_cpuid_count(l, s, a, b, c, d) oldcpu_id(l, s, a, b, c, d)
#define _xgetbv(x) oldcpu_xcr0()
#define __INTEL_COMPILER 1900
#endif
