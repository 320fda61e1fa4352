/* Runs scripted cases against the real library through its public interface and records what happens.
 * Input: a text script (argv[1]); output: one JSON event per line on stdout, "CASE id" lines between cases.
 * Every case runs in a forked child, so a crash or abort of the code under test is an observation. */
#define _GNU_SOURCE
#include <pwart.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <fcntl.h>

#define MAXMOD 16
#define MAXINST 24
#define MAXH 32
#define MAXREG 4096
#define MAXOBJ 16

static FILE *out;

struct buf { uint8_t *p; int n; };
static struct buf mods[MAXMOD]; static int nmods;
static pwart_module_state inst[MAXINST]; static int ninst;
static pwart_module_compiler instcomp[MAXINST];
static struct { char par[300], res[300]; char **q; int nq, at; int cb_inst, cb_fn, cb_left; char cb_args[512]; pwart_wasm_function fn; char name[32]; } hf[MAXH];
static struct { void *p; char ref[64]; int own; } reg[MAXREG]; static int nreg, regown;
static struct pwart_wasm_memory hmem[MAXOBJ]; static int nhmem;
static struct pwart_wasm_table htab[MAXOBJ]; static int nhtab;
static uint64_t hglob[MAXOBJ]; static int nhglob;
static struct { int inst, idx; char par[300], res[300]; void *fn; } fns[MAXREG]; static int nfns;
static pwart_namespace ns;
static uint8_t *stkbase; static const size_t STKSZ = 1 << 20;

/* memory of compilers and code that is refused: the ref_at-th block (and all after it), the ref_x-th piece of executable memory */
static int ref_at, ref_all, ref_n, ref_x, ref_xn, ref_hit;
void *refuse_malloc(size_t n) { if (ref_at && (++ref_n == ref_at || (ref_all && ref_n > ref_at))) { ref_hit = 1; return NULL; } return malloc(n); }
int refuse_exec(void) { if (ref_x && ++ref_xn == ref_x) { ref_hit = 1; return 1; } return 0; }
static void ev(const char *fmt, ...) { va_list a; va_start(a, fmt); vfprintf(out, fmt, a); va_end(a); }
static void evflush(void) { fflush(out); }

static void add_reg(void *p, const char *fmt, ...) {
  va_list a; if (p == NULL || nreg >= MAXREG) return;
  for (int i = 0; i < nreg; i++) if (reg[i].p == p) return;
  va_start(a, fmt); vsnprintf(reg[nreg].ref, 64, fmt, a); va_end(a); reg[nreg].own = regown; reg[nreg++].p = p;
}
static void drop_reg(int own) { int n = 0; for (int i = 0; i < nreg; i++) if (reg[i].own != own) reg[n++] = reg[i]; nreg = n; }
static void put_bytes(const void *v, int n) { const uint8_t *b = v; for (int i = 0; i < n; i++) ev("%s%d", i ? "," : "", b[i]); }
static void put_ref(void *p) {
  if (p == NULL) { ev("[0]"); return; }
  for (int i = 0; i < nreg; i++) if (reg[i].p == p) { ev("[%s]", reg[i].ref); return; }
  ev("[9,"); put_bytes(&p, 8); ev("]");
}
static void *find_ref(int a, int b, int c) {
  char t[64]; if (a == 0) return NULL;
  if (a == 1) snprintf(t, 64, "1,%d,%d", b, c); else snprintf(t, 64, "2,%d", b);
  for (int i = 0; i < nreg; i++) if (!strcmp(reg[i].ref, t)) return reg[i].p;
  fprintf(stderr, "harness: unknown ref %s\n", t); _exit(99);
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static int unhex(const char *s, uint8_t *o) { int n = 0; while (s[0] && s[1] && s[0] > ' ') { o[n++] = hexv(s[0]) * 16 + hexv(s[1]); s += 2; } return n; }

/* textual values: hex bytes for numbers; @0 null, @1.i.k function, @2.h host function, @9hex pointer */
static void *ref_of(const char *s) {
  int a = 0, b = 0, c = 0; s++;
  if (*s == '9') { void *p = 0; unhex(s + 1, (uint8_t *)&p); return p; }
  sscanf(s, "%d.%d.%d", &a, &b, &c); return find_ref(a, b, c);
}
static void put_args(void **sp, const char *types, char *toks) {
  char *sv, *t = strtok_r(toks, " ", &sv);
  for (; *types; types++, t = strtok_r(NULL, " ", &sv)) {
    uint8_t b[16] = {0}; int i; long long I; float f; double d;
    if (!t) { fprintf(stderr, "harness: missing argument\n"); _exit(99); }
    switch (*types) {
      case 'i': unhex(t, b); memcpy(&i, b, 4); pwart_rstack_put_i32(sp, i); break;
      case 'I': unhex(t, b); memcpy(&I, b, 8); pwart_rstack_put_i64(sp, I); break;
      case 'f': unhex(t, b); memcpy(&f, b, 4); pwart_rstack_put_f32(sp, f); break;
      case 'F': unhex(t, b); memcpy(&d, b, 8); pwart_rstack_put_f64(sp, d); break;
      case 'r': pwart_rstack_put_ref(sp, ref_of(t)); break;
    }
  }
}
static void get_vals(void **sp, const char *types) {
  ev("[");
  for (int k = 0; types[k]; k++) {
    int i; long long I; float f; double d;
    if (k) ev(",");
    switch (types[k]) {
      case 'i': i = pwart_rstack_get_i32(sp); ev("["); put_bytes(&i, 4); ev("]"); break;
      case 'I': I = pwart_rstack_get_i64(sp); ev("["); put_bytes(&I, 8); ev("]"); break;
      case 'f': f = pwart_rstack_get_f32(sp); ev("["); put_bytes(&f, 4); ev("]"); break;
      case 'F': d = pwart_rstack_get_f64(sp); ev("["); put_bytes(&d, 8); ev("]"); break;
      case 'r': put_ref(pwart_rstack_get_ref(sp)); break;
    }
  }
  ev("]");
}
static void print_args(const char *types, char *toks) { /* echo of textual values as JSON */
  char *sv, *t = strtok_r(toks, " ", &sv); ev("[");
  for (int k = 0; types[k]; k++, t = strtok_r(NULL, " ", &sv)) {
    uint8_t b[16]; int n; if (k) ev(",");
    if (types[k] == 'r') { put_ref(ref_of(t)); continue; }
    n = unhex(t, b); ev("["); put_bytes(b, n); ev("]");
  }
  ev("]");
}
static void *fn_of(int i, int k, char **par, char **res) {
  for (int j = 0; j < nfns; j++) if (fns[j].inst == i && fns[j].idx == k) { *par = fns[j].par; *res = fns[j].res; return fns[j].fn; }
  fprintf(stderr, "harness: unknown function %d.%d\n", i, k); _exit(99);
}
#define GUARD 256
static void do_call(int i, int k, char *args, uint8_t *base, int quiet) {
  char *par, *res, tmp[8192]; void *fn = fn_of(i, k, &par, &res), *sp;
  if (fn == NULL) { ev("{\"e\":\"nofn\"}\n"); evflush(); return; }
  /* bytes below the frame must not be touched, bytes above hold garbage */
  memset(base, 0xA5, 16384);
  uint8_t *fp = base + GUARD;
  snprintf(tmp, sizeof tmp, "%s", args);
  sp = fp; put_args(&sp, par, tmp);
  ev("{\"e\":\"call\",\"i\":%d,\"f\":%d,\"a\":", i, k); snprintf(tmp, sizeof tmp, "%s", args); print_args(par, tmp); ev("}\n"); evflush();
  pwart_call_wasm_function(fn, fp);
  for (int j = 0; j < GUARD; j++) if (base[j] != 0xA5) { ev("{\"e\":\"clobber\",\"o\":%d}\n", j - GUARD); break; }
  sp = fp; ev("{\"e\":\"ret\",\"r\":"); get_vals(&sp, res); ev("}\n"); evflush();
}
static void hf_generic(int h, void *fp) {
  void *sp = fp; char tmp[2048];
  ev("{\"e\":\"h\",\"f\":[2,%d],\"a\":", h); get_vals(&sp, hf[h].par); ev("}\n"); evflush();
  if (hf[h].cb_left > 0) {
    hf[h].cb_left--; uint8_t *nb = (uint8_t *)(((uintptr_t)sp + 4096 + 15) & ~(uintptr_t)15);
    if (nb + 32768 < stkbase + STKSZ) do_call(hf[h].cb_inst, hf[h].cb_fn, hf[h].cb_args, nb, 0);
  }
  /* garbage over the arguments: results must come from what is put here */
  if (sp > fp) memset(fp, 0x5A, (char *)sp - (char *)fp);
  const char *r = hf[h].nq ? hf[h].q[hf[h].at++ % hf[h].nq] : "";
  sp = fp; snprintf(tmp, sizeof tmp, "%s", r); put_args(&sp, hf[h].res, tmp);
  ev("{\"e\":\"hr\",\"r\":"); snprintf(tmp, sizeof tmp, "%s", r); print_args(hf[h].res, tmp); ev("}\n"); evflush();
}
#define H1(n) static void hf_##n(void *fp) { hf_generic(n, fp); }
#define ALLH(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
ALLH(H1)
#define H2(n) hf_##n,
static pwart_host_function_c hfp[16] = { ALLH(H2) };

/* host module "host": functions h0.., memories m0.., tables t0.., globals g0.. */
static void host_resolve_field(const char *f, uint32_t kind, void **res) {
  int k; char t[16]; *res = NULL; if (!f[0]) return; k = atoi(f + 1); snprintf(t, 16, "%d", k); if (strcmp(t, f + 1)) return;
  if (f[0] == 'h' && kind == PWART_KIND_FUNCTION && k < 16) *res = hf[k].fn;
  if (f[0] == 'm' && kind == PWART_KIND_MEMORY && k < nhmem) *res = &hmem[k];
  if (f[0] == 't' && kind == PWART_KIND_TABLE && k < nhtab) *res = &htab[k];
  if (f[0] == 'g' && kind == PWART_KIND_GLOBAL && k < nhglob) *res = &hglob[k];
}
static void hm_resolve(struct pwart_host_module *t, struct pwart_symbol_resolve_request *r) { host_resolve_field(r->import_field, r->kind, &r->result); }
static struct pwart_host_module hostmod = { hm_resolve };
/* further host modules with arbitrary names and fields: HMOD, HALIAS */
static struct { struct pwart_host_module m; char *name; } xmod[MAXMOD]; static int nxmod;
static struct { int mod, kind, idx; char *field; } alias[256]; static int nalias;
static void x_resolve(int k, struct pwart_symbol_resolve_request *r) {
  char f[16]; r->result = NULL;
  for (int i = 0; i < nalias; i++) if (alias[i].mod == k && alias[i].kind == (int)r->kind && !strcmp(alias[i].field, r->import_field)) {
    snprintf(f, 16, "%c%d", "htmg"[r->kind], alias[i].idx); host_resolve_field(f, r->kind, &r->result);
  }
}
static void xm_resolve(struct pwart_host_module *t, struct pwart_symbol_resolve_request *r) { for (int k = 0; k < nxmod; k++) if (t == &xmod[k].m) x_resolve(k, r); }
static char instname[MAXINST][32]; static int instmode[MAXINST];
static void lo_resolve(struct pwart_symbol_resolver *t, struct pwart_symbol_resolve_request *r) {
  r->result = NULL;
  for (int k = 0; k < nxmod; k++) if (!strcmp(xmod[k].name, r->import_module)) { x_resolve(k, r); return; }
  if (!strcmp(r->import_module, "host")) { host_resolve_field(r->import_field, r->kind, &r->result); return; }
  for (int i = ninst; i >= 1; i--) if (inst[i] && !strcmp(instname[i], r->import_module)) {
    switch (r->kind) {
      case PWART_KIND_FUNCTION: r->result = pwart_get_export_function(inst[i], r->import_field); break;
      case PWART_KIND_TABLE: r->result = pwart_get_export_table(inst[i], r->import_field); break;
      case PWART_KIND_MEMORY: r->result = pwart_get_export_memory(inst[i], r->import_field); break;
      case PWART_KIND_GLOBAL: r->result = pwart_get_export_global(inst[i], r->import_field); break;
    }
    return;
  }
}
static struct pwart_symbol_resolver lo_res = { lo_resolve };

static void dump_mem(struct pwart_wasm_memory *m) {
  if (m == NULL) { ev("{\"e\":\"mem\",\"pg\":-1,\"mx\":-1,\"d\":[]}\n"); return; }
  ev("{\"e\":\"mem\",\"pg\":%u,\"mx\":%u,\"d\":[", m->pages, m->maximum);
  size_t n = (size_t)m->pages * 65536; static const uint8_t z[4096]; int first = 1;
  for (size_t a = 0; a < n; a += 4096) {
    if (!memcmp(m->bytes + a, z, 4096)) continue;
    for (size_t b = a; b < a + 4096; b += 16) if (memcmp(m->bytes + b, z, 16)) {
      ev("%s[%zu,", first ? "" : ",", b / 16); first = 0; put_bytes(m->bytes + b, 16); ev("]");
    }
  }
  ev("]}\n");
}
static void run_case(char **lines, int nl) {
  void *a = mmap(NULL, STKSZ + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect((char *)a + 4096, STKSZ, PROT_READ | PROT_WRITE); stkbase = (uint8_t *)a + 4096;
  ns = pwart_namespace_new();
  for (int h = 0; h < 16; h++) { hf[h].fn = pwart_wrap_host_function_c(hfp[h]); add_reg(hf[h].fn, "2,%d", h); }
  pwart_namespace_define_host_module(ns, "host", &hostmod);
  int nbs = 0; struct pwart_named_symbol *bs = pwart_get_builtin_symbols(&nbs);
  for (int k = 0; k < nbs; k++) if (bs[k].kind == PWART_KIND_FUNCTION) add_reg(bs[k].val.fn, "3,\"%s\"", bs[k].name);
  for (int li = 0; li < nl; li++) {
    char *ln = lines[li], cmd[16]; int off = 0, x, y, z; char s1[600], s2[600], s3[600];
    if (sscanf(ln, "%15s %n", cmd, &off) < 1) continue;
    char *r = ln + off;
    if (!strcmp(cmd, "ASLIM")) { /* what is too large is too large everywhere */
      struct rlimit rl = {(rlim_t)12 << 30, (rlim_t)12 << 30}; setrlimit(RLIMIT_AS, &rl);
    } else if (!strcmp(cmd, "CFG")) {
      struct pwart_global_compile_config c; sscanf(r, "%d %d", &x, &y);
      pwart_get_global_compile_config(&c); c.stack_flags = x; c.misc_flags = y; pwart_set_global_compile_config(&c);
    } else if (!strcmp(cmd, "MOD")) {
      uint8_t *b = malloc(strlen(r) / 2 + 16); mods[++nmods].n = unhex(r, b); mods[nmods].p = b;
    } else if (!strcmp(cmd, "HF")) { /* HF h par res ('-' for none) */
      sscanf(r, "%d %299s %299s", &x, s1, s2); strcpy(hf[x].par, s1[0] == '-' ? "" : s1); strcpy(hf[x].res, s2[0] == '-' ? "" : s2);
    } else if (!strcmp(cmd, "HRES")) {
      sscanf(r, "%d %n", &x, &off); hf[x].q = realloc(hf[x].q, (hf[x].nq + 1) * sizeof(char *)); hf[x].q[hf[x].nq++] = r + off;
    } else if (!strcmp(cmd, "HCB")) { /* HCB h inst fn times args */
      int times; sscanf(r, "%d %d %d %d %n", &x, &y, &z, &times, &off);
      hf[x].cb_inst = y; hf[x].cb_fn = z; hf[x].cb_left = times; snprintf(hf[x].cb_args, 512, "%s", r + off);
    } else if (!strcmp(cmd, "HMEM")) { /* pages max */
      sscanf(r, "%d %d", &x, &y); struct pwart_wasm_memory *m = &hmem[nhmem++];
      m->initial = m->pages = x; m->maximum = y; m->fixed = 1; m->bytes = calloc(y, 65536);
      ev("{\"e\":\"hmem\",\"pg\":%d,\"mx\":%d}\n", x, y);
    } else if (!strcmp(cmd, "HTAB")) {
      sscanf(r, "%d %n", &x, &off); struct pwart_wasm_table *t = &htab[nhtab++];
      t->elem_type = 0x70; t->initial = t->size = t->maximum = x; if (r[off] == '^') t->maximum = strtol(r + off + 1, &r, 10), off = 0; t->entries = calloc(x, sizeof(void *));
      char *sv, *tk = strtok_r(r + off, " \n", &sv);
      for (int k = 0; k < x && tk; k++, tk = strtok_r(NULL, " \n", &sv)) t->entries[k] = ref_of(tk);
      ev("{\"e\":\"htab\",\"v\":["); for (int k = 0; k < x; k++) { if (k) ev(","); put_ref(t->entries[k]); } ev("]}\n");
    } else if (!strcmp(cmd, "HGLOB")) {
      uint8_t b[16] = {0}; int n = unhex(r, b); memcpy(&hglob[nhglob++], b, 8);
      ev("{\"e\":\"hglob\",\"v\":["); put_bytes(b, n); ev("]}\n");
    } else if (!strcmp(cmd, "HMOD")) { /* HMOD hexname */
      xmod[nxmod].name = calloc(1, strlen(r) / 2 + 2); unhex(r, (uint8_t *)xmod[nxmod].name); xmod[nxmod].m.resolve = xm_resolve;
      pwart_namespace_define_host_module(ns, xmod[nxmod].name, &xmod[nxmod].m); nxmod++;
    } else if (!strcmp(cmd, "HALIAS")) { /* HALIAS hmod kind idx hexfield */
      sscanf(r, "%d %d %d %n", &x, &y, &z, &off); alias[nalias].mod = x; alias[nalias].kind = y; alias[nalias].idx = z;
      alias[nalias].field = calloc(1, strlen(r + off) / 2 + 2); unhex(r + off, (uint8_t *)alias[nalias].field); nalias++;
    } else if (!strcmp(cmd, "INSP")) { /* inspection of an instance */
      struct pwart_inspect_result1 q; memset(&q, 0xCC, sizeof q); sscanf(r, "%d", &x); pwart_inspect_module_state(inst[x], &q);
      ev("{\"e\":\"insp\",\"ms\":%d,\"tc\":%d,\"m\":[", q.memory_size, q.table_entries_count);
      for (int k = 0; k < 16 && k < q.memory_size; k++) ev("%s%d", k ? "," : "", ((uint8_t *)q.memory)[k]);
      ev("],\"t\":["); for (int k = 0; k < q.table_entries_count; k++) { if (k) ev(","); put_ref(q.table_entries[k]); } ev("]}\n");
    } else if (!strcmp(cmd, "LOAD")) { /* LOAD mod name mode */
      char *err = NULL; ref_at = ref_all = ref_x = ref_n = ref_xn = ref_hit = 0; sscanf(r, "%d %31s %d %d %d %d", &x, s1, &y, &ref_at, &ref_all, &ref_x); ninst++; strcpy(instname[ninst], s1); instmode[ninst] = y; inst[ninst] = NULL; instcomp[ninst] = NULL;
      /* the bytes of the module end where no memory is, and are gone after the load */
      size_t cs = (mods[x].n + 4096) & ~(size_t)4095; char *cb = mmap(NULL, cs + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(cb + cs, 4096, PROT_NONE);
      char *copy = cb + cs - mods[x].n; memcpy(copy, mods[x].p, mods[x].n);
      if (y == 0) inst[ninst] = pwart_namespace_define_wasm_module(ns, s1, copy, mods[x].n, &err);
      else {
        pwart_module_compiler c = pwart_new_module_compiler(); pwart_set_symbol_resolver(c, &lo_res);
        err = pwart_compile(c, copy, mods[x].n);
        if (err == NULL) inst[ninst] = pwart_get_module_state(c);
        if (y == 1) { char *e2 = pwart_free_module_compiler(c); if (e2 && !err) err = e2; } else if (err) pwart_free_module_compiler(c); else instcomp[ninst] = c;
      }
      ref_at = ref_x = 0; munmap(cb, cs + 4096);
      if (inst[ninst] == NULL && err == NULL) err = "null state";
      if (err != NULL) { inst[ninst] = NULL; ninst--; }
      ev("{\"e\":\"load\",\"ok\":%d,\"nomem\":%d,\"err\":\"%s\"}\n", err == NULL, ref_hit, err ? err : ""); evflush();
    } else if (!strcmp(cmd, "CFREE")) { sscanf(r, "%d", &x); if (instcomp[x]) { pwart_free_module_compiler(instcomp[x]); instcomp[x] = NULL; }
    } else if (!strcmp(cmd, "SFREE")) { sscanf(r, "%d", &x); if (instmode[x] == 0) pwart_namespace_remove_module(ns, instname[x]); else pwart_free_module_state(inst[x]); inst[x] = NULL; drop_reg(x);
    } else if (!strcmp(cmd, "FN")) { /* FN inst idx par res exportname canon_inst canon_idx : makes a function callable */
      int ci, ck; sscanf(r, "%d %d %299s %299s %300s %d %d", &x, &y, s1, s2, s3, &ci, &ck);
      fns[nfns].inst = x; fns[nfns].idx = y; strcpy(fns[nfns].par, s1[0] == '-' ? "" : s1); strcpy(fns[nfns].res, s2[0] == '-' ? "" : s2);
      fns[nfns].fn = pwart_get_export_function(inst[x], s3);
      regown = x; if (ci > 0) add_reg(fns[nfns].fn, "1,%d,%d", ci, ck);
      regown = 0; nfns++;
    } else if (!strcmp(cmd, "CALL")) { sscanf(r, "%d %d %n", &x, &y, &off); do_call(x, y, r + off, stkbase, 0);
    } else if (!strcmp(cmd, "MEM")) { sscanf(r, "%d %600s", &x, s1); dump_mem(pwart_get_export_memory(inst[x], s1));
    } else if (!strcmp(cmd, "GLOB")) { sscanf(r, "%d %600s %1s", &x, s1, s2); void *g = pwart_get_export_global(inst[x], s1);
      ev("{\"e\":\"glob\",\"v\":"); if (g == NULL) ev("[]"); else if (s2[0] == 'r') put_ref(*(void **)g); else { ev("["); put_bytes(g, s2[0] == 'i' || s2[0] == 'f' ? 4 : 8); ev("]"); } ev("}\n");
    } else if (!strcmp(cmd, "TAB")) { sscanf(r, "%d %600s", &x, s1); struct pwart_wasm_table *t = pwart_get_export_table(inst[x], s1);
      ev("{\"e\":\"tab\",\"v\":["); for (uint32_t k = 0; t && k < t->size; k++) { if (k) ev(","); put_ref(t->entries[k]); } ev("]}\n");
    } else if (!strcmp(cmd, "PGLOB")) { sscanf(r, "%d %600s %600s", &x, s1, s2); uint8_t b[16]; void *g = pwart_get_export_global(inst[x], s1);
      if (s2[0] == '@') { void *p = ref_of(s2); memcpy(g, &p, 8); ev("{\"e\":\"pglob\",\"v\":"); put_ref(p); ev("}\n"); }
      else { int n = unhex(s2, b); memcpy(g, b, n); ev("{\"e\":\"pglob\",\"v\":["); put_bytes(b, n); ev("]}\n"); }
    } else if (!strcmp(cmd, "PMEM")) { unsigned ad; sscanf(r, "%d %600s %u %n", &x, s1, &ad, &off); struct pwart_wasm_memory *m = pwart_get_export_memory(inst[x], s1);
      uint8_t b[1024]; int n = unhex(r + off, b); memcpy(m->bytes + ad, b, n); ev("{\"e\":\"pmem\",\"a\":["); put_bytes(&ad, 4); ev("],\"v\":["); put_bytes(b, n); ev("]}\n");
    } else if (!strcmp(cmd, "PTAB")) { sscanf(r, "%d %600s %d %600s", &x, s1, &y, s2); struct pwart_wasm_table *t = pwart_get_export_table(inst[x], s1);
      t->entries[y] = ref_of(s2); ev("{\"e\":\"ptab\",\"x\":%d,\"v\":", y); put_ref(t->entries[y]); ev("}\n");
    } else if (!strcmp(cmd, "FINDP")) { /* register pointer of export under a canonical name: inst kind name canon */
      sscanf(r, "%d %d %600s %63s", &x, &y, s1, s2); void *p = y == 1 ? (void *)pwart_get_export_table(inst[x], s1) : y == 2 ? (void *)pwart_get_export_memory(inst[x], s1) : pwart_get_export_global(inst[x], s1);
      regown = x; add_reg(p, "%s", s2); regown = 0;
    } else if (!strcmp(cmd, "FIND")) { /* inst kind hexname */
      uint8_t nm[700]; sscanf(r, "%d %d %n", &x, &y, &off); int n = unhex(r + off, nm); nm[n] = 0; const char *s = (char *)nm; void *p = NULL;
      switch (y) { case 0: p = pwart_get_export_function(inst[x], s); break; case 1: p = pwart_get_export_table(inst[x], s); break;
                   case 2: p = pwart_get_export_memory(inst[x], s); break; case 3: p = pwart_get_export_global(inst[x], s); break; }
      ev("{\"e\":\"find\",\"r\":"); if (p == NULL) ev("[]"); else put_ref(p); ev("}\n");
    } else if (!strcmp(cmd, "START")) { sscanf(r, "%d", &x); void *p = pwart_get_start_function(inst[x]);
      ev("{\"e\":\"start\",\"r\":"); if (p == NULL) ev("[]"); else put_ref(p); ev("}\n");
    } else if (!strcmp(cmd, "HEAP")) { /* churn the heap so that released memory gets reused */
      sscanf(r, "%d", &x); srand(x); void *v[64]; for (int k = 0; k < 64; k++) { size_t s = 16 + rand() % 3000; v[k] = malloc(s); memset(v[k], 0xDB, s); } for (int k = 0; k < 64; k++) free(v[k]);
    } else { fprintf(stderr, "harness: unknown command %s\n", cmd); _exit(99); }
    evflush();
  }
}
/* the whole script, not a file shared with the children: one that leaves through exit() would move it */
static FILE *script(const char *path) {
  FILE *f = fopen(path, "r"); if (!f) exit(99);
  size_t n = 0, c = 1 << 20; char *b = malloc(c); for (size_t k; (k = fread(b + n, 1, c - n, f)) > 0; ) { n += k; if (n == c) b = realloc(b, c *= 2); }
  fclose(f); return n ? fmemopen(b, n, "r") : fopen("/dev/null", "r");
}
int main(int argc, char **argv) {
  FILE *f = script(argv[1]); char *line = NULL; size_t cap = 0; ssize_t n; char **lines = NULL; int nl = 0, cl = 0; char id[64] = ""; int nhang = 0;
  setvbuf(stdout, NULL, _IOFBF, 1 << 16); out = stdout;
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  while ((n = getline(&line, &cap, f)) > 0) {
    if (line[n - 1] == '\n') line[n - 1] = 0;
    if (!strncmp(line, "CASE ", 5)) { snprintf(id, 64, "%s", line + 5); nl = 0; continue; }
    if (strcmp(line, "END")) { if (nl == cl) lines = realloc(lines, (cl = cl * 2 + 64) * sizeof(char *)); lines[nl++] = strdup(line); continue; }
    printf("CASE %s\n", id); fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      int dn = open("/dev/null", O_WRONLY); int saved = dup(1);
      out = fdopen(saved, "w"); setvbuf(out, NULL, _IOFBF, 1 << 20); dup2(dn, 1);
      signal(SIGALRM, SIG_DFL); alarm(nhang < 2 ? 10 : 1);
      run_case(lines, nl); fflush(out); _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) nhang++;
    if (WIFSIGNALED(st)) printf("{\"e\":\"crash\",\"sig\":%d}\n", WTERMSIG(st));
    else if (WEXITSTATUS(st) == 99) { printf("{\"e\":\"harness\"}\n"); }
    else if (WEXITSTATUS(st)) printf("{\"e\":\"crash\",\"sig\":%d}\n", 1000 + WEXITSTATUS(st));
    fflush(stdout);
    for (int i = 0; i < nl; i++) free(lines[i]);
    nl = 0;
  }
  return 0;
}
