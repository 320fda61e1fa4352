/* Builds scripted programs while memory is refused at chosen points; nothing of the code is run. Every call's outcome is
 * recorded: what it gave back, the compiler's error after it, and whether memory was refused during it. */
#define FAILMODE
#define MAGIC ((void *)0x1357)
#include "lirun.c"

/* ---- the memory ---- */
static struct { void *p; size_t n; } live[1024]; static int nlive, nalloc, failat, failall, refused, xfailat, nx_, xrefused, baddata;
static int armed, hit;
void *err_malloc(size_t n, void *d) {
  if (d != MAGIC) baddata = 1;
  nalloc++;
  if (armed && failat && (nalloc == failat || (failall && nalloc > failat))) { refused = hit = 1; return NULL; }
  void *p = malloc(n); memset(p, 0xd5, n);
  if (nlive == 1024) harness_fail("blocks", "");
  live[nlive].p = p; live[nlive++].n = n; return p;
}
void err_free(void *p, void *d) {
  if (d != MAGIC) baddata = 1;
  if (!p) return;
  for (int i = 0; i < nlive; i++) if (live[i].p == p) { memset(p, 0xe7, live[i].n); free(p); live[i] = live[--nlive]; return; }
  baddata = 2;
}
void *__real_mmap(void *a, size_t n, int p, int f, int fd, off_t o);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
  if (armed && ++nx_ == xfailat) { xrefused = 1; return MAP_FAILED; }
  return __real_mmap(a, n, p, f, fd, o);
}

/* ---- the record: runs of equal steps are one step ---- */
static char tr[1 << 20]; static int ntr; static char last[96];
static int line_no;
static int lasterr;
static void step(const char *k, int rc, int null, int extra) {
  char b[96]; int e = C ? sljit_get_compiler_error(C) : -1;
  if (*k == 'x' && e == lasterr && !refused && !xrefused) return;   /* nothing happened since the call was recorded */
  lasterr = e;
  snprintf(b, 96, "{\"k\":\"%s\",\"rc\":%d,\"null\":%d,\"err\":%d,\"f\":%d,\"g\":%d,\"x\":%d,\"live\":%d}", k, rc, null, e, refused, xrefused, extra, C ? -1 : nlive);
  refused = xrefused = 0;
  if (!strcmp(b, last)) return;
  strcpy(last, b);
  if (ntr + 100 < (int)sizeof tr) ntr += sprintf(tr + ntr, "%s%s", ntr ? "," : "", b);
}
static void ck(int e) { step("c", e, 0, 0); }
static void obj(const void *p) { step("n", 0, !p, 0); }
static void almem(int n) { obj(sljit_alloc_memory(C, n)); if (sljit_alloc_memory(C, 0) || sljit_alloc_memory(C, 129) || sljit_alloc_memory(C, -1)) step("odd", 0, 0, 1); }
static void serialize(int opt) {
  sljit_uw size = 77, *b = sljit_serialize_compiler(C, opt & 1 ? SLJIT_SERIALIZE_IGNORE_DEBUG : 0, &size);
  step("s", 0, !b, !b == (size == 0));
  if (!b) return;
  int n0 = nlive; struct sljit_compiler *d = sljit_deserialize_compiler(b, size, 0, MAGIC);
#if SLJIT_DEBUG
  if (opt & 1) { step("u", 0, !d, nlive == n0); err_free(b, MAGIC); return; }
#endif
  if (!d) { step("d", 0, 1, nlive == n0); err_free(b, MAGIC); return; }
  step("d", 0, 0, 1);
  sljit_free_compiler(d); step("r", 0, 0, nlive == n0); err_free(b, MAGIC);
}

static int cases_;
static char **L; static int NL, entline;
/* one way of building the program; returns the number of blocks asked for */
static char seen[4096][24]; static int nseen;
static uint64_t hash(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (uint8_t)*s++) * 1099511628211ull; return h; }
/* tl: the line before which the current fragment (of code, or of objects) is filled so that `room` bytes are left, the
 * next one is refused; lines after it are left out but for two */
typedef struct { int failat, all, xfailat, pad, apad, setmem; long buf; int tl, objs, room; } Way;
static int cap[2];
static void nop(void) { int e = sljit_emit_op0(C, SLJIT_NOP); if (e) ck(e); }
static void mem8(void) { if (!sljit_alloc_memory(C, 8)) obj(NULL); }
static void fill(int objs, int room) {
  void (*one_)(void) = objs ? mem8 : nop; int unit = objs ? 8 : 2, n = nalloc, left = cap[objs] - room - unit;
  while (nalloc == n && !sljit_get_compiler_error(C)) one_();
  if (left & 1) { int e = sljit_emit_op1(C, SLJIT_MOV32, SLJIT_R0, 0, SLJIT_R1, 0); if (e) ck(e); left -= 3; }
  for (; left >= unit; left -= unit) one_();
}
static void measure(void) {
  C = sljit_create_compiler(MAGIC); armed = 0;
  for (int k = 0; k < 2; k++) { int n = nalloc, m = 0; while (nalloc == n) k ? mem8() : nop(); n = nalloc; while (nalloc == n) { k ? mem8() : nop(); m++; } cap[k] = m * (k ? 8 : 2); }
  sljit_free_compiler(C); C = NULL;
}
static Way cur; static int curline, ofd = -1;
static void died(int sig) {
  char b[256]; int n = snprintf(b, 256, "{\"e\":\"at\",\"way\":[%d,%d,%d,%d,%d,%d,%ld,%d,%d,%d,%d]}\n", cur.failat, cur.all, cur.xfailat, cur.pad, cur.apad, cur.setmem, cur.buf, cur.tl, cur.objs, cur.room, curline);
  write(ofd, b, n); signal(sig, SIG_DFL); raise(sig);
}
static int build(Way w) {
  cur = w; curline = -1;
  memset(jumps, 0, sizeof jumps); memset(labels, 0, sizeof labels); memset(consts, 0, sizeof consts); memset(bound, 0, sizeof bound);
  if (w.xfailat) sljit_free_unused_memory_exec();
  nalloc = nx_ = refused = xrefused = baddata = nlive = ntr = 0; last[0] = 0; C = NULL;
  failat = w.failat; failall = w.all; xfailat = w.xfailat; armed = 1;
  struct sljit_compiler *c = sljit_create_compiler(MAGIC);
  C = c; step("create", 0, !c, 0);
  if (c) {
    if (sljit_compiler_get_allocator_data(C) != MAGIC) baddata = 3;
    void *code = NULL; int gen = 0;
    for (int i = 0; i < NL; i++) {
      curline = i;
      if (i == w.setmem) { sljit_set_compiler_memory_error(C); step("setmem", 0, 0, 0); }
      if (!strncmp(L[i], "gen", 3)) {
        for (int k = 0; k < njt; k++) if (!bound[k]) sljit_set_label(jumps[k], labels[jt[k]]);
        gen = 1;
        if (w.buf < 0) { code = sljit_generate_code(C, 0, NULL); step("gen", 0, !code, 0); }
        else {
          static uint8_t area[1 << 20] __attribute__((aligned(4096))); mprotect(area, sizeof area, PROT_READ | PROT_WRITE); struct sljit_generate_code_buffer g = {area + 4096, w.buf, 0};
          memset(area, 0x6b, sizeof area); void *p = sljit_generate_code(C, SLJIT_GENERATE_CODE_BUFFER, &g);
          int in = 1; for (size_t k = 0; k < sizeof area; k++) if (area[k] != 0x6b && (k < 4096 || k >= 4096 + (size_t)w.buf)) in = 0;
          sljit_uw sz = sljit_get_generated_code_size(C);
          /* x: 1 the code is inside, 2 and its size is right, 4 the buffer is large */
          step("genbuf", 0, !p, (p ? in && p == area + 4096 && sz <= (sljit_uw)w.buf && sz > 0 : in) | (w.buf >= (1 << 19) ? 4 : 0));
        }
        if (sljit_get_compiler_error(C) != SLJIT_ERR_COMPILED) { if (sljit_get_executable_offset(C) || sljit_get_generated_code_size(C)) step("odd", 0, 0, 2); }
        ck(sljit_emit_op0(C, SLJIT_NOP)); obj(sljit_emit_label(C)); obj(sljit_emit_jump(C, SLJIT_JUMP)); obj(sljit_alloc_memory(C, 8));
        { void *again = sljit_generate_code(C, 0, NULL); step("gen", 0, !again, 0); }
        sljit_set_compiler_memory_error(C); step("setmem", 0, 0, 0);
        ck(sljit_emit_return_void(C));
        continue;
      }
      if (w.tl >= 0 && i > w.tl + 2) continue;
      if (!strncmp(L[i], "run", 3) || !strncmp(L[i], "setconst", 8) || !strncmp(L[i], "setjump", 7) || !strncmp(L[i], "setbuf", 6)) continue;
      if (i == w.tl) { fill(w.objs, w.room); failat = nalloc + 1; hit = 0; }
      char *d = strdup(L[i]); one(d); free(d); step("x", 0, 0, 0);
      if (i == w.tl && !hit) break;
      if (i == entline && !gen) {
        for (int k = 0; k < w.pad; k++) ck(sljit_emit_op0(C, SLJIT_NOP));
        for (int k = 0; k < w.apad; k++) obj(sljit_alloc_memory(C, 8));
      }
    }
    c = C; sljit_free_compiler(c);
    if (code) sljit_free_code(code, NULL);
  }
  C = NULL; step("end", 0, 0, baddata); armed = 0;
  cases_++;
  /* the same record is written once */
  char hs[24]; snprintf(hs, 24, "%llx", (unsigned long long)hash(tr)); int k = 0;
  for (; k < nseen && strcmp(seen[k], hs); k++);
  if (k == nseen && nseen < 4096) { strcpy(seen[nseen++], hs);
    ev("{\"e\":\"build\",\"way\":[%d,%d,%d,%d,%d,%d,%ld,%d,%d,%d],\"ev\":[%s]}\n", w.failat, w.all, w.xfailat, w.pad, w.apad, w.setmem, w.buf, w.tl, w.objs, w.room, tr); fflush(out); }
  for (int i = 0; i < nlive; i++) free(live[i].p);
  return nalloc;
}

static void run_case(char **lines, int n) {
#ifdef OLDCPU
  lir_cpu_off = n * 7u % 31 + 1;
#endif
  unsigned seed = 1, per = 16, sweep = 0; measure(); clf = fopen("/dev/null", "w");
  ofd = fileno(out); signal(SIGSEGV, died); signal(SIGABRT, died); signal(SIGBUS, died); signal(SIGALRM, died);
  L = malloc(n * sizeof *L); entline = -1;
  for (int i = 0; i < n; i++) {
    char c[32]; int off = 0; if (sscanf(lines[i], "%31s%n", c, &off) != 1) continue;
    if (!strcmp(c, "ways")) { sscanf(lines[i] + off, "%u %u %u", &seed, &per, &sweep); continue; }
    if (setup(c, lines[i] + off)) continue;
    if (entline < 0 && (!strcmp(c, "ent") || !strcmp(c, "vent"))) entline = NL;
    L[NL++] = lines[i];
  }
#define RND(m) ((seed = seed * 1103515245u + 12345u), (int)((seed >> 8) % (m)))
  Way w = {0, 0, 0, 0, 0, -1, -1, -1};
  ev("{\"e\":\"start\"}\n"); fflush(out);
  build(w);
  for (int k = 1; k <= 3; k++) { w.failat = k; w.all = 0; build(w); w.all = 1; build(w); }
  for (int k = 1; k <= 3; k++) { Way x = {0, 0, k, 0, 0, -1, -1, -1}; build(x); }
  for (int k = 0; k < 6; k++) { Way x = {0, 0, 0, 0, 0, RND(NL + 1), -1, -1}; build(x); }
  { Way x = {0, 0, 0, 0, 0, -1, 1 << 19, -1}; build(x); for (int k = 0; k < 24; k++) { x.buf = k < 3 ? k : k < 12 ? RND(200) : RND(6000); build(x); } }
  for (unsigned r = 0; r < per; r++) {
    Way x = {0, 0, 0, 0, 0, -1, -1, -1};
    x.pad = entline < 0 ? 0 : RND(2040); x.apad = entline < 0 ? 0 : RND(4) ? 505 - RND(1 + RND(200)) : 0;
    int m = build(x);
    for (int k = 4; k <= m && k < 12; k++) { x.failat = k; x.all = 0; build(x); if (!RND(3)) { x.all = 1; build(x); } }
  }
  /* every place inside a line at which the memory can end */
  int swept = 0;
  for (int i = RND(2); i < NL && sweep; i++) {
    if (NL > (int)sweep && RND(NL) >= (int)sweep) continue;
    if (!strncmp(L[i], "gen", 3)) break;
    for (int o = 0; o < 2; o++) {
      int miss = 0;
      for (int room = 0; room < 400 && miss < 2; room += o ? 8 : 1) {
        if ((room & 1) && i <= entline) continue;
        Way x = {0, room & 1 || (o && RND(2)), 0, 0, 0, -1, -1, i, o, room}; build(x); swept += hit; miss = hit ? 0 : miss + 1;
      }
    }
  }
  ev("{\"e\":\"swept\",\"n\":%d}\n", swept);
  ev("{\"e\":\"builds\",\"n\":%d}\n", cases_);
}
