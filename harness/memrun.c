/* Histories on sljit's executable allocators and on its growable stack.  The library is compiled with mmap and munmap
 * renamed to h_mmap and h_munmap, so that every region is known, placed next to others, and can be refused. */
#define main runner_main
#include "runner.h"
#undef main
#include "sljitLir.h"
#include <pthread.h>

#define ARENA 0x40000000ull
#define NREG 4096
static uint8_t *arena; static struct { uint8_t *p; size_t n; int alias, live; } reg[NREG]; static int nreg, failnext, failed;
static int got[64], ngot, lost[64], nlost, badunmap;
/* ---- what several threads did, in one order: a block is there from the return of its allocation to the call that frees it ---- */
static pthread_mutex_t hl = PTHREAD_MUTEX_INITIALIZER; static int threads;
static struct { char o; int i; long n; int c; long off; int v; } tev[1 << 16]; static int ntev;
static void tlog(char o, int i, long n, int c, long off, int v) { if (ntev < (1 << 16)) { tev[ntev].o = o; tev[ntev].i = i; tev[ntev].n = n; tev[ntev].c = c; tev[ntev].off = off; tev[ntev++].v = v; } }
#ifdef CHUNK_SIZE /* a small chunk: regions smaller than a page */
static size_t gran(size_t n) { return n < 4096 ? 8 : 4096; }
#else
static size_t gran(size_t n) { return 4096; }
#endif
static void *h_mmap1(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (failnext || n > ARENA / 2) { failnext = 0; failed++; return MAP_FAILED; }
  if (!arena) { arena = mmap(NULL, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (arena == MAP_FAILED) harness_fail("arena", ""); arena += 0x100000; }
  size_t g = gran(n), m = (n + g - 1) / g * g; uint8_t *p = arena; int again = 1;
  while (again) { /* the lowest free place: next to what is there */
    again = 0;
    for (int i = 0; i < nreg; i++) if (reg[i].live && p < reg[i].p + reg[i].n && reg[i].p < p + m) { p = reg[i].p + reg[i].n; p += (g - (uintptr_t)p % g) % g; again = 1; }
  }
  if (g == 4096) { if (mmap(p, m, prot, flags | MAP_FIXED, fd, off) != p) return MAP_FAILED; }
  else mprotect((void *)((uintptr_t)p & ~4095ull), ((uintptr_t)p + m + 4095 - ((uintptr_t)p & ~4095ull)) & ~4095ull, PROT_READ | PROT_WRITE | PROT_EXEC), memset(p, 0, m);
  if (nreg == NREG) harness_fail("regions", "");
  reg[nreg].p = p; reg[nreg].n = m; reg[nreg].live = 1; reg[nreg].alias = (flags & MAP_SHARED) && (prot & PROT_EXEC); nreg++;
  if (!reg[nreg - 1].alias && ngot < 64) got[ngot++] = nreg;
  return p;
}
static int h_munmap1(void *a, size_t n) {
  for (int i = 0; i < nreg; i++) if (reg[i].live && reg[i].p == a) {
    size_t g = gran(n), m = (n + g - 1) / g * g; if (m != reg[i].n) { badunmap++; return -1; }
    reg[i].live = 0; if (!reg[i].alias && nlost < 64) lost[nlost++] = i + 1;
    if (g == 4096) mmap(a, m, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0); else memset(a, 0xdd, m);
    return 0; }
  badunmap++; return -1;
}
/* the system takes memory that is given up at once, and what is found there later is anything */
int h_madvise(void *a, size_t n, int advice) {
  if (advice == MADV_DONTNEED || advice == MADV_FREE) {
    int in = 0; for (int i = 0; i < nreg; i++) if (reg[i].live && (uint8_t *)a >= reg[i].p && (uint8_t *)a + n <= reg[i].p + reg[i].n) in = 1;
    if (!in || (uintptr_t)a % 4096) return -1;
    memset(a, 0xEE, (n + 4095) / 4096 * 4096);
  }
  return 0;
}
void *h_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  pthread_mutex_lock(&hl); void *p = h_mmap1(a, n, prot, flags, fd, off);
  if (threads && p != MAP_FAILED && !reg[nreg - 1].alias) tlog('r', nreg, reg[nreg - 1].n, 0, 0, 0);
  pthread_mutex_unlock(&hl); return p;
}
int h_munmap(void *a, size_t n) {
  pthread_mutex_lock(&hl); int i; for (i = 0; i < nreg; i++) if (reg[i].live && reg[i].p == a) break;
  if (threads && !(i < nreg && reg[i].alias)) tlog('x', i < nreg ? i + 1 : -1, 0, 0, 0, 0);
  int r = h_munmap1(a, n); pthread_mutex_unlock(&hl); return r;
}
static int where(uint8_t *p, size_t n) { for (int i = 0; i < nreg; i++) if (reg[i].live && p >= reg[i].p && p + n <= reg[i].p + reg[i].n) return i + 1; return -1; }

/* ---- blocks ---- */
static struct { uint8_t *p; size_t n; int tag, live; } blk[512]; static int nblk;
#if (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
#define XOFF(p) sljit_exec_offset(p)
#else
#define XOFF(p) 0
#endif
static int contents(int i) {
  uint8_t *p = blk[i].p, *x = p + XOFF(p);
  if (where(p, blk[i].n) < 0 || where(x, blk[i].n) < 0) return -2;
  for (size_t k = 0; k < blk[i].n; k++) {
    int v = k < 6 && blk[i].n >= 6 ? (k == 0 ? 0xb8 : k == 1 ? blk[i].tag : k == 5 ? 0xc3 : 0) : blk[i].tag;
    if (p[k] != v || x[k] != v) return -1;
  }
#if !(defined SLJIT_WX_EXECUTABLE_ALLOCATOR && SLJIT_WX_EXECUTABLE_ALLOCATOR)
  if (blk[i].n >= 6 && ((int (*)(void))x)() != blk[i].tag) return -3;
#endif
  return blk[i].tag;
}
static int tid0, tops; static unsigned tseed;
static void *worker(void *arg) {
  unsigned r = tseed * 2654435761u + (unsigned)(uintptr_t)arg * 40503u + 1, id = 0; struct { uint8_t *p; long n; int i, tag; } my[8] = {{0}};
  for (int k = 0; k < tops; k++) {
    r ^= r << 13; r ^= r >> 17; r ^= r << 5; int q = r % 8;
    if (my[q].p) { long off = XOFF(my[q].p); int v = my[q].tag; for (long b = 0; b < my[q].n; b++) if (my[q].p[b] != v || my[q].p[b + off] != v) v = -1;
      pthread_mutex_lock(&hl); tlog('f', my[q].i, 0, 0, 0, v); pthread_mutex_unlock(&hl);
      uint8_t *p = my[q].p + off; my[q].p = NULL; sljit_free_exec(p); }
    else if (r % 97 == 5) sljit_free_unused_memory_exec();
    else { long n = 1 + (r >> 8) % ((r & 64) ? 300 : 3000); my[q].n = n; my[q].tag = 1 + (r >> 5) % 250; uint8_t *p = sljit_malloc_exec(n);
      pthread_mutex_lock(&hl); int w = p ? where(p, n) : 0; my[q].i = ++tid0; tlog('m', my[q].i, n, w, w > 0 ? (long)(p - reg[w - 1].p) : 0, my[q].tag); pthread_mutex_unlock(&hl);
      if (w <= 0) return NULL; my[q].p = p; memset(p, my[q].tag, n); }
  }
  return NULL;
}
static void step(const char *o, int i, long n, int c, long off, int tag) {
  ev("{\"o\":\"%s\",\"i\":%d,\"n\":%ld,\"c\":%d,\"off\":%ld,\"tag\":%d,\"failed\":%d,\"maps\":[", o, i, n, c, off, tag, failed);
  for (int k = 0; k < ngot; k++) ev("%s[%d,%ld]", k ? "," : "", got[k], (long)reg[got[k] - 1].n);
  ev("],\"unmaps\":["); for (int k = 0; k < nlost; k++) ev("%s%d", k ? "," : "", lost[k]);
  if (badunmap) ev("%s-1", nlost ? "," : "");
  ev("],\"mem\":["); int f = 0; for (int k = 0; k < nblk; k++) if (blk[k].live) ev("%s[%d,%d]", f++ ? "," : "", k + 1, contents(k));
  ev("]}\n"); fflush(out); ngot = nlost = failed = badunmap = 0;
}

/* ---- stacks ---- */
static struct sljit_stack *stk[4]; static struct { long d; int v; } known[4][256]; static int nknown[4];
static void sstep(int ok) {
  int nm = 0; for (int i = 0; i < nreg; i++) nm += reg[i].live;
  ev("{\"ok\":%d,\"regions\":%d,\"s\":[", ok, nm);
  for (int q = 0; q < 2; q++) { ev("%s", q ? "," : ""); struct sljit_stack *s = stk[q]; if (!s) { ev("[]"); continue; }
    ev("[%ld,%ld,%ld,[", (long)(s->end - s->min_start), (long)(s->end - s->start), (long)(s->end - s->top));
    for (int k = 0; k < nknown[q]; k++) ev("%s%d", k ? "," : "", s->end[-known[q][k].d]);
    ev("]]"); }
  ev("]}\n"); fflush(out); badunmap = 0;
}

static void run_case(char **lines, int n) {
  for (int li = 0; li < n; li++) {
    char *l = lines[li]; long a, b, c, d;
    if (sscanf(l, "m %ld", &a) == 1) { /* allocate */
      uint8_t *p = sljit_malloc_exec(a); int i = nblk++; if (nblk >= 512) harness_fail("blocks", "");
      if (!p) { nblk--; step("m", i + 1, a, 0, 0, 0); continue; }
      int w = where(p, a); blk[i].p = p; blk[i].n = a; blk[i].tag = 1 + (i * 37) % 251; blk[i].live = w > 0;
      if (w > 0) { memset(p, blk[i].tag, a); if (a >= 6) { p[0] = 0xb8; p[1] = blk[i].tag; p[2] = p[3] = p[4] = 0; p[5] = 0xc3; } }
      step("m", i + 1, a, w, w > 0 ? (long)(p - reg[w - 1].p) : 0, blk[i].tag); if (w < 0) return; }
    else if (sscanf(l, "f %ld", &a) == 1) { uint8_t *p = blk[a - 1].p; blk[a - 1].live = 0; sljit_free_exec(p + XOFF(p)); step("f", a, 0, 0, 0, 0); }
    else if (l[0] == 'u') { sljit_free_unused_memory_exec(); step("u", 0, 0, 0, 0, 0); }
    else if (l[0] == 'x') failnext = 1;
    else if (sscanf(l, "T %ld %ld %ld", &a, &b, &c) == 3) { /* b threads, c operations each */
      pthread_t t[16]; tseed = a; tops = c; threads = 1;
      for (long k = 0; k < b; k++) pthread_create(t + k, NULL, worker, (void *)(k + 1));
      for (long k = 0; k < b; k++) pthread_join(t[k], NULL);
      for (int k = 0; k < ntev; k++) ev("{\"o\":\"t%c\",\"i\":%d,\"n\":%ld,\"c\":%d,\"off\":%ld,\"v\":%d}\n", tev[k].o, tev[k].i, tev[k].n, tev[k].c, tev[k].off, tev[k].v);
      fflush(out); threads = 0; }
    else if (sscanf(l, "sa %ld %ld %ld", &a, &b, &c) == 3) { stk[a] = sljit_allocate_stack(b, c < 0 ? (sljit_uw)1 << 62 : c, NULL); nknown[a] = 0; failnext = 0; sstep(stk[a] != NULL); }
    else if (sscanf(l, "sf %ld", &a) == 1) { sljit_free_stack(stk[a], NULL); stk[a] = NULL; sstep(1); }
    else if (sscanf(l, "sr %ld %ld", &a, &b) == 2) { sljit_u8 *p = stk[a]->end - b, *r = sljit_stack_resize(stk[a], p); sstep(r == p ? 1 : r == NULL ? 0 : 2);  }
    else if (sscanf(l, "st %ld %ld", &a, &b) == 2) { stk[a]->top = stk[a]->end - b; sstep(1); }
    else if (sscanf(l, "sw %ld %ld %ld", &a, &b, &c) == 3) { stk[a]->end[-b] = c; sstep(1); }
    else if (sscanf(l, "sk %ld%ln", &a, &d) == 1) { char *p = l + d; nknown[a] = 0; while (sscanf(p, " %ld%ln", &b, &d) == 1) { known[a][nknown[a]++].d = b; p += d; } }
    else harness_fail("operation", l);
  }
}
int main(int argc, char **argv) { return runner_main(argc, argv); }
