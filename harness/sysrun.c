/* Replays histories of Bindings.tla: a module that imports libuv and libffi is called through exported wrappers, by
 * the thread of the history and by the threads it makes with uv_thread_create. */
#include "runner.h"
#include <semaphore.h>
#include <pthread.h>
#include <dlfcn.h>
#include <time.h>
#include <errno.h>
#include <ffi.h>
#include <uv.h>
#include <pwart.h>
struct pwart_host_module *pwart_libuv_module_new(); struct pwart_host_module *pwart_libffi_module_new();
typedef struct { uint8_t *stk; uint64_t r[8]; int variant; sem_t go, done; char cmd[20000]; char res[20000]; int n, quit, busy, which; uint64_t arg; } Actor;
static Actor act[8]; static pwart_module_state M; static volatile int starting; static __thread Actor *me;
static pwart_namespace ns; static void *so; static char sopath[300];
static uint64_t mut[8], cnd[8], lib[8], cif[8], cbc[8], cbcode[8]; static void *atypes[8]; static int rawcif[8];
/* what a foreign function or callback saw; one call at a time */
static int seenN; static uint8_t seen[300][8]; static char kinds[300]; static uint8_t give[8]; static long cbF; static uint64_t cbUD, cbCif; static int cbRaw; static char sig[300];
static int bad; static void fail(const char *m) { ev("\"%s\"\n", m); fflush(out); _exit(0); }

static void put(Actor *a, const char *f, ...) { va_list v; va_start(v, f); a->n += vsnprintf(a->res + a->n, sizeof a->res - a->n, f, v); va_end(v); }
static void call(Actor *a, const char *name, const char *p, const char *r, ...) {
  char nm[64]; va_list v; void *sp; int pend = a->variant & 1; snprintf(nm, 64, "%s%s", name, pend ? "_p" : "");
  pwart_wasm_function f = pwart_get_export_function(M, nm); if (!f) fail("an exported function is missing");
  sp = a->stk; va_start(v, r);
  for (int k = 0; p[k]; k++) { uint64_t x = va_arg(v, uint64_t); if (p[k] == 'i') pwart_rstack_put_i32(&sp, (int)x); else if (p[k] == 'I') pwart_rstack_put_i64(&sp, x); else pwart_rstack_put_ref(&sp, (void *)x); }
  va_end(v);
  if (pend) { pwart_rstack_put_i32(&sp, 0x13572468); pwart_rstack_put_f64(&sp, 1234.5); }
  memset(sp, 0xCD, 64);
  pwart_call_wasm_function(f, a->stk);
  sp = a->stk;
  for (int k = 0; r[k]; k++) { if (r[k] == 'i') a->r[k] = (uint32_t)pwart_rstack_get_i32(&sp); else if (r[k] == 'I') a->r[k] = pwart_rstack_get_i64(&sp); else a->r[k] = (uint64_t)pwart_rstack_get_ref(&sp); }
  if (pend) { int x = pwart_rstack_get_i32(&sp); double y = pwart_rstack_get_f64(&sp); if (x != 0x13572468 || y != 1234.5) bad = 1; }
}
static uint64_t fn(const char *n) { void *f = pwart_get_export_function(M, n); if (!f) fail("an exported function is missing"); return (uint64_t)f; }
static int msize(char c) { return c == 'i' || c == 'f' ? 4 : c == 'v' ? 0 : 8; }
static void bytes(Actor *a, const uint8_t *b, int n) { put(a, "["); for (int i = 0; i < n; i++) put(a, "%s%d", i ? "," : "", b[i]); put(a, "]"); }
static void showseen(Actor *a) { put(a, "["); for (int i = 0; i < seenN; i++) { if (i) put(a, ","); bytes(a, seen[i], msize(kinds[i])); } put(a, "]"); }
/* called by the foreign functions of the library */
static void take(char kind, const void *p) { kinds[seenN] = kind; memcpy(seen[seenN++], p, msize(kind)); }
static void result(void *p, char kind) { memcpy(p, give, msize(kind)); }
static int values(char *r, uint8_t v[][8]) { int n = 0; char *t = strtok(r, " "); while (t) { unhex(t, v[n++]); t = strtok(NULL, " "); } return n; }

static void doit(Actor *a, char *line) {
  char cmd[16], s[300]; int off = 0; long x = 0, y = 0, z = 0, w = 0; char *r = line; static uint8_t v[400][8]; static uint64_t slots[300]; static void *av[300];
  a->n = 0; a->res[0] = 0; sscanf(r, "%15s %d %n", cmd, &a->variant, &off); r += off;
  sscanf(r, "%ld %ld %ld", &x, &y, &z);
  if (!strcmp(cmd, "version")) { call(a, "uv_version", "", "i"); put(a, "[%d]", a->r[0] == uv_version());
  } else if (!strcmp(cmd, "mutex_init")) { call(a, "uv_mutex_init", "", "r"); mut[x] = a->r[0]; put(a, "[%d]", mut[x] != 0);
  } else if (!strcmp(cmd, "mutex_destroy")) { call(a, "uv_mutex_destroy", "r", "", mut[x]); put(a, "[]");
  } else if (!strcmp(cmd, "lock")) { call(a, "uv_mutex_lock", "r", "", mut[x]); put(a, "[]");
  } else if (!strcmp(cmd, "trylock")) { call(a, "uv_mutex_trylock", "r", "i", mut[x]); put(a, "[%d]", (int)a->r[0]);
  } else if (!strcmp(cmd, "unlock")) { call(a, "uv_mutex_unlock", "r", "", mut[x]);
  } else if (!strcmp(cmd, "cond_init")) { call(a, "uv_cond_init", "", "r"); cnd[x] = a->r[0]; put(a, "[%d]", cnd[x] != 0);
  } else if (!strcmp(cmd, "cond_destroy")) { call(a, "uv_cond_destroy", "r", "", cnd[x]); put(a, "[]");
  } else if (!strcmp(cmd, "wait")) { call(a, "uv_cond_wait", "rr", "", cnd[x], mut[y]);
  } else if (!strcmp(cmd, "signal")) { call(a, "uv_cond_signal", "r", "", cnd[x]); put(a, "[]");
  } else if (!strcmp(cmd, "create")) { uint64_t arg; sscanf(r, "%*d %n", &off); unhex(r + off, (uint8_t *)&arg); Actor *b = &act[x]; memset(b, 0, sizeof *b); sem_init(&b->go, 0, 0); sem_init(&b->done, 0, 0); starting = x;
    int e = 1 + (a->variant >> 1 & 1); call(a, "uv_thread_create", "rI", "r", fn(e == 1 ? "thr1" : "thr2"), arg); uint64_t h = a->r[0];
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 8;
    if (sem_timedwait(&b->done, &t)) put(a, "\"the thread did not start\""); else { put(a, "[%d,", h != 0); bytes(a, (uint8_t *)&b->arg, 8); put(a, ",%d]", b->which == e); }
  } else if (!strcmp(cmd, "dlopen")) { char *p = strdup(y ? sopath : "/nowhere/x.so"); call(a, "uv_dlopen", "r", "ri", (uint64_t)p); memset(p, 'z', strlen(p)); free(p); lib[x] = a->r[0]; put(a, "[%d,%d]", lib[x] != 0, (int)a->r[1]);
  } else if (!strcmp(cmd, "dlsym")) { snprintf(s, 60, y ? "fn_%ld" : "nothing", y); call(a, "uv_dlsym", "rr", "ri", lib[x], (uint64_t)s); uint64_t want = y ? (uint64_t)dlsym(so, s) : 0; put(a, "[%ld,%d]", a->r[0] == want ? y : -1L, (int)a->r[1]);
  } else if (!strcmp(cmd, "dlclose")) { call(a, "uv_dlclose", "r", "", lib[x]); put(a, "[]");
  } else if (!strcmp(cmd, "newcif")) { int fix, n; char ret; sscanf(r, "%*d %*d %*d %d %c %n", &fix, &ret, &off); r += off; n = strlen(r); if (*r == '-') n = 0, r = "";
    rawcif[x] = z;
    if (!z) { int form = ret == 'v' && (a->variant & 2); char *d = malloc(n + 3); if (form) strcpy(d, r); else sprintf(d, "%s>%c", r, ret); call(a, "ffix_new_cif", "r", "ri", (uint64_t)d); memset(d, 'z', n + 2); free(d); cif[x] = a->r[0]; put(a, "[%d,%d]", cif[x] != 0, (int)a->r[1]); }
    else { call(a, "ffi_default_abi", "", "i"); uint64_t abi = a->r[0], T[8]; call(a, "ffi_built_in_types", "", "rrrrrrrr"); memcpy(T, a->r, sizeof T); int sg = a->variant >> 1 & 1;
      void **at = malloc(sizeof(void *) * (n + 1)); char all[300]; snprintf(all, 300, "%s%c", r, ret);
      for (int k = 0; k <= n; k++) at[k] = (void *)(all[k] == 'v' ? T[0] : all[k] == 'i' ? T[1 + sg] : all[k] == 'l' ? T[3 + sg] : all[k] == 'f' ? T[5] : all[k] == 'd' ? T[6] : T[7]);
      ffi_cif *c = calloc(1, sizeof(ffi_cif));
      if (fix < 0) call(a, "ffi_prep_cif", "riirr", "i", (uint64_t)c, abi, (uint64_t)n, (uint64_t)at[n], (uint64_t)at); else call(a, "ffi_prep_cif_var", "riiirr", "i", (uint64_t)c, abi, (uint64_t)fix, (uint64_t)n, (uint64_t)at[n], (uint64_t)at);
      atypes[x] = at; cif[x] = (uint64_t)c; put(a, "[1,%d]", (int)a->r[0]); }
  } else if (!strcmp(cmd, "long")) { char *d = malloc(300); memset(d, 'i', 300); call(a, "ffix_new_cif", "r", "ri", (uint64_t)d); free(d); put(a, "[%d,%d]", a->r[0] != 0, (int)a->r[1]);
  } else if (!strcmp(cmd, "abi")) { ffi_cif c; ffi_type *at[1] = {&ffi_type_pointer}; call(a, a->variant & 2 ? "ffi_prep_cif_var" : "ffi_prep_cif", a->variant & 2 ? "riiirr" : "riirr", "i", (uint64_t)&c, 9999L, 1L, a->variant & 2 ? 1L : (uint64_t)&ffi_type_pointer, a->variant & 2 ? (uint64_t)&ffi_type_pointer : (uint64_t)at, (uint64_t)at); put(a, "[%d]", (int)a->r[0]);
  } else if (!strcmp(cmd, "delcif")) { if (rawcif[x]) { free((void *)cif[x]); free(atypes[x]); } else call(a, "ffix_del_cif", "r", "", cif[x]); put(a, "[]");
  } else if (!strcmp(cmd, "call")) { char ret; sscanf(r, "%*d %*d %*d %c %n", &ret, &off); r += off; int n = values(r, v); char *q = 0; snprintf(s, 60, "fn_%ld", y); memcpy(give, v[0], 8); seenN = 0;
    uint8_t *rv = malloc(16); memset(rv, 0xAB, 16); 
    for (int k = 1; k < n; k++) { memcpy(&slots[k - 1], v[k], 8); av[k - 1] = &slots[k - 1]; }
    if (z) call(a, "ffi_call", "rrrr", "", cif[x], (uint64_t)dlsym(so, s), (uint64_t)rv, (uint64_t)av); else call(a, "ffix_call", "rrrr", "", cif[x], (uint64_t)dlsym(so, s), (uint64_t)rv, (uint64_t)slots);
    put(a, "["); showseen(a); put(a, ","); bytes(a, rv, msize(ret)); put(a, "]"); free(rv);
  } else if (!strcmp(cmd, "newcb")) { uint64_t ud; int raw; sscanf(r, "%*d %*d %*d %d %n", &raw, &off); unhex(r + off, (uint8_t *)&ud); uint64_t f = fn(z == 1 ? "cb1" : "cb2");
    if (!raw) { call(a, "ffix_new_c_callback", "rrr", "rri", cif[y], f, ud); cbc[x] = a->r[0]; cbcode[x] = a->r[1]; put(a, "[%d,%d,%d]", a->r[0] != 0, a->r[1] != 0, (int)a->r[2]); }
    else { call(a, "ffi_closure_alloc", "", "rr"); cbc[x] = a->r[0]; cbcode[x] = a->r[1]; call(a, "ffi_prep_closure_loc", "rrrrr", "i", cbc[x], cif[y], f, ud, cbcode[x]); put(a, "[%d,%d,%d]", cbc[x] != 0, cbcode[x] != 0, (int)a->r[0]); }
  } else if (!strcmp(cmd, "prepare")) { uint64_t ud; sscanf(r, "%*d %*d %*d %n", &off); unhex(r + off, (uint8_t *)&ud); call(a, "ffi_prep_closure_loc", "rrrrr", "i", cbc[x], cif[y], fn(z == 1 ? "cb1" : "cb2"), ud, cbcode[x]); put(a, "[%d]", (int)a->r[0]);
  } else if (!strcmp(cmd, "callcb")) { char ret; long c; sscanf(r, "%*d %*d %ld %ld %c %299s %n", &z, &c, &ret, sig, &off); if (*sig == '-') *sig = 0; r += off; int n = values(r, v); memcpy(give, v[0], 8); seenN = 0; cbRaw = z; cbF = -1; cbUD = cbCif = 0;
    snprintf(s, 60, "call_%ld", y); void (*go)(void *, void *, void *) = dlsym(so, s); uint8_t rv[8]; memset(rv, 0xAB, 8); go((void *)cbcode[x], v[1], rv);
    put(a, "[%ld,", cbF); bytes(a, (uint8_t *)&cbUD, 8); put(a, ",%d,", cbCif == cif[c]); showseen(a); put(a, ","); bytes(a, rv, msize(ret)); put(a, "]");
  } else if (!strcmp(cmd, "delcb")) { call(a, y ? "ffi_closure_free" : "ffix_del_c_callback", "r", "", cbc[x]); put(a, "[]");
  } else if (!strcmp(cmd, "enabled")) { call(a, "ffi_is_enabled", "", "i"); put(a, "[%d]", (int)a->r[0]);
  } else if (!strcmp(cmd, "noop")) { static const char *nm[] = {"ffi_prep_cif", "ffi_prep_cif_var", "ffi_call", "ffix_new_cif", "ffix_del_cif", "ffix_call", "ffi_closure_free", "ffi_prep_closure_loc", "ffix_new_c_callback", "ffix_del_c_callback"}, *pr[] = {"riirr", "riiirr", "rrrr", "r", "r", "rrrr", "r", "rrrrr", "rrr", "r"};
    /* invalid addresses: nothing may be done with them */
    call(a, nm[x], pr[x], "", 8L, 16L, 24L, 32L, 40L, 48L); put(a, "[]");
  } else harness_fail("command", cmd);
  if (bad) { a->n = 0; put(a, "\"pending values lost in %s\"", cmd); bad = 0; }
}

/* ---- imported by the module */
static void onthread(void *fp) {   /* (which, arg) */
  void *sp = fp; int w = pwart_rstack_get_i32(&sp); uint64_t arg = pwart_rstack_get_i64(&sp);
  me = &act[starting]; me->which = w; me->arg = arg; me->stk = (uint8_t *)fp + 256; sem_post(&me->done);
  for (;;) { sem_wait(&me->go); if (me->quit) return; doit(me, me->cmd); sem_post(&me->done); }
}
static void onexit_(void *fp) { void *sp = fp; int ok = pwart_rstack_get_i32(&sp); Actor *a = me; a->n = 0; put(a, "[%d]", ok); sem_post(&a->done); }
static void oncb(void *fp) {  /* (which, cif, ret, args, ud) */
  void *sp = fp; cbF = pwart_rstack_get_i32(&sp); cbCif = (uint64_t)pwart_rstack_get_ref(&sp); uint8_t *ret = pwart_rstack_get_ref(&sp); void *args = pwart_rstack_get_ref(&sp); cbUD = (uint64_t)pwart_rstack_get_ref(&sp);
  for (int k = 0; sig[k]; k++) take(sig[k], cbRaw ? ((void **)args)[k] : (uint8_t *)args + 8 * k);
  memcpy(ret, give, 8);
}
static void oncbend(void *fp) { void *sp = fp; if (!pwart_rstack_get_i32(&sp)) bad = 1; }

static int done(Actor *a, long ms) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_nsec += ms % 1000 * 1000000; t.tv_sec += ms / 1000 + t.tv_nsec / 1000000000; t.tv_nsec %= 1000000000; int r; while ((r = sem_timedwait(&a->done, &t)) && errno == EINTR); return !r; }
static void run_case(char **lines, int n) {
  static uint8_t buf[1 << 16]; char *err = NULL; alarm(60);
  const char *names[] = {"onthread", "onexit", "oncb", "oncbend"}; pwart_host_function_c fs[] = {onthread, onexit_, oncb, oncbend};
  act[0].stk = pwart_allocate_stack(1 << 16); me = &act[0];
  for (int l = 0; l < n; l++) {
    char cmd[16], *r = lines[l]; int t = 0, off = 0, var, expect, who; long a = 0, b = 0;
    sscanf(r, "%15s %n", cmd, &off);
    if (!strcmp(cmd, "CFG")) { struct pwart_global_compile_config g; sscanf(r + off, "%ld %ld", &a, &b); g.stack_flags = a; g.misc_flags = b; pwart_set_global_compile_config(&g); continue; }
    if (!strcmp(cmd, "SO")) { snprintf(sopath, 300, "%s", r + off); so = dlopen(sopath, RTLD_NOW); if (!so) harness_fail("dlopen", dlerror()); *(void **)dlsym(so, "take") = take; *(void **)dlsym(so, "result") = result; continue; }
    if (!strcmp(cmd, "MOD")) { ns = pwart_namespace_new();
      pwart_namespace_define_host_module(ns, "libuv", pwart_libuv_module_new()); pwart_namespace_define_host_module(ns, "libffi", pwart_libffi_module_new());
      pwart_namespace_define_host_module(ns, "env", pwart_namespace_new_host_module(names, fs, 4));
      int z = unhex(r + off, buf); M = pwart_namespace_define_wasm_module(ns, "main", (char *)buf, z, &err); if (!M) fail(err); continue; }
    /* cmd thread expect who : rest     expect 0: returns, 1: waits; who: the waiting one that then goes on */
    sscanf(r + off, "%d %d %d %n", &t, &expect, &who, &var); char *rest = r + off + var; Actor *A = &act[t];
    if (who >= 0 && done(&act[who], 0)) fail("did not wait long enough");
    char line[20000]; snprintf(line, sizeof line, "%s %s", cmd, rest);
    if (!strcmp(cmd, "exit")) { A->quit = 1; sem_post(&A->go); if (!done(A, 8000)) fail("the thread does not end"); ev("%s\n", A->res); A->stk = 0; continue; }
    if (t == 0) doit(A, line); else { strcpy(A->cmd, line); sem_post(&A->go); 
      if (expect) { if (done(A, 8)) fail("did not wait"); } else if (!done(A, 8000)) fail("does not return"); }
    if (who >= 0) { if (!done(&act[who], 8000)) fail("the one that waits does not go on"); }
    if (expect) { if (!strcmp(cmd, "wait")) ev("[\"blocks\",%d]\n", who); else ev("[\"blocks\"]\n"); }
    else if (!strcmp(cmd, "unlock")) ev("[%d]\n", who); else ev("%s\n", A->res);
    fflush(out);
  }
}
