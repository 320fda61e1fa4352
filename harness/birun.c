/* Replays histories of Builtins.tla: a module that imports every builtin is called through exported wrappers. */
#include "runner.h"
#include <sys/stat.h>
#include <pwart.h>
static pwart_namespace ns; static pwart_module_state M[3]; static uint8_t *stk;
static uint64_t slot[16]; static long slotsz[16]; static uint64_t H[8];
static uint64_t A[16], Rr[8]; static int variant;
/* call wrapper name with argument types p, results r; the _p variant keeps two values pending over the builtin */
static void call(int inst, const char *name, const char *p, const char *r, ...) {
  static const char *how[] = {"", "_t", "_i", "_ti"};
  char nm[64]; va_list a; void *sp; int pend = variant & 1; snprintf(nm, 64, "%s%s", name, pend ? "_p" : how[variant >> 2 & 3]);
  pwart_wasm_function f = pwart_get_export_function(M[inst], nm);
  if (!f) { f = pwart_get_export_function(M[inst], name); pend = 0; }
  if (!f) harness_fail("no function", nm);
  sp = stk; va_start(a, r);
  for (int k = 0; p[k]; k++) { uint64_t v = va_arg(a, uint64_t); A[k] = v; if (p[k] == 'i') pwart_rstack_put_i32(&sp, (int)v); else if (p[k] == 'I') pwart_rstack_put_i64(&sp, v); else pwart_rstack_put_ref(&sp, (void *)v); }
  va_end(a);
  if (pend) { pwart_rstack_put_i32(&sp, 0x13572468); pwart_rstack_put_f64(&sp, 1234.5); }
  memset(sp, 0xCD, 64);
  pwart_call_wasm_function(f, stk);
  sp = stk;
  for (int k = 0; r[k]; k++) { if (r[k] == 'i') Rr[k] = (uint32_t)pwart_rstack_get_i32(&sp); else if (r[k] == 'I') Rr[k] = pwart_rstack_get_i64(&sp); else Rr[k] = (uint64_t)pwart_rstack_get_ref(&sp); }
  if (pend) { int x = pwart_rstack_get_i32(&sp); double y = pwart_rstack_get_f64(&sp); if (x != 0x13572468 || y != 1234.5) { ev("\"pending values lost in %s\"\n", name); fflush(out); _exit(0); } }
}
static long winoff(int k) { return k == 5 ? 0 : k == 6 ? 65536 - 48 : 100; }
static int winmem(int k) { return k == 7 ? 1 : 0; }
static uint8_t *memb(int m) { struct pwart_wasm_memory *w = pwart_get_export_memory(M[1], m ? "m1" : "m0"); return w->bytes; }
/* reference to byte o of region k, obtained inside the module */
static uint64_t refof(int k, int o) {
  if (k <= 4) { if (variant & 2) call(1, "ref_nat", "I", "r", slot[k] + o); else call(1, "ref_from_i64", "I", "r", slot[k] + o); return Rr[0]; }
  call(1, winmem(k) ? "ref_m1" : "ref_m0", "i", "r", (uint64_t)(winoff(k) + o)); return Rr[0];
}
static char dir[300]; static uint8_t *tmp; static char *names[] = {"", "mod1", "mod2", "a"};
static void bytes(const uint8_t *b, long n) { ev("["); for (long i = 0; i < n; i++) ev("%s%d", i ? "," : "", b[i]); ev("]"); }

static void run_case(char **lines, int n) {
  static uint8_t buf[1 << 16]; stk = pwart_allocate_stack(1 << 16); memset(stk, 0xCD, 1 << 16);
  for (int l = 0; l < n; l++) {
    char cmd[16], *r = lines[l], s[64]; int off = 0; long a = 0, b = 0, c = 0, d = 0, e = 0;
    sscanf(r, "%15s %n", cmd, &off); r += off; 
    if (!strcmp(cmd, "CFG")) { struct pwart_global_compile_config g; sscanf(r, "%ld %ld", &a, &b); g.stack_flags = a; g.misc_flags = b; pwart_set_global_compile_config(&g); continue; }
    if (!strcmp(cmd, "DIR")) { snprintf(dir, 300, "%s", r); mkdir(dir, 0700); continue; }
    if (!strcmp(cmd, "MOD")) { if (!ns) ns = pwart_namespace_new(); a = atoi(r); sscanf(r, "%*s %n", &off); int z = unhex(r + off, buf); char *err = NULL;
      M[a] = pwart_namespace_define_wasm_module(ns, a == 1 ? "main" : "second", (char *)buf, z, &err); if (!M[a]) { ev("\"load: %s\"\n", err); fflush(out); _exit(0); } continue; }
    sscanf(r, "%d %n", &variant, &off); r += off;
    if (!strcmp(cmd, "alloc")) { sscanf(r, "%ld %ld", &a, &b); call(1, "memory_alloc", "i", "I", b); slot[a] = Rr[0]; slotsz[a] = b; int ok = Rr[0] != 0;
      for (int k = 1; k <= 4; k++) if (k != a && slot[k] && slot[a] < slot[k] + slotsz[k] && slot[k] < slot[a] + b) ok = 0;
      ev("[%d]\n", ok);
    } else if (!strcmp(cmd, "free")) { a = atoi(r); call(1, "memory_free", "I", "", slot[a]); slot[a] = 0; ev("[]\n");
    } else if (!strcmp(cmd, "store")) { sscanf(r, "%ld %ld %ld %n", &a, &b, &c, &off); uint64_t v = 0; unhex(r + off, (uint8_t *)&v);
      snprintf(s, 64, "st%ld_%s", c, a <= 4 ? "n" : winmem(a) ? "1" : "0"); int w = c == 8;
      /* the constant offset of the instruction is 16 */
      uint64_t at = (a <= 4 ? slot[a] : winoff(a)) + b; int o = variant & 2 && at >= 16; if (o) { strcat(s, "o"); at -= 16; }
      call(1, s, a <= 4 ? (w ? "II" : "Ii") : (w ? "iI" : "ii"), "", at, v); ev("[]\n");
    } else if (!strcmp(cmd, "load")) { sscanf(r, "%ld %ld %ld", &a, &b, &c);
      snprintf(s, 64, "ld%ld_%s", c, a <= 4 ? "n" : winmem(a) ? "1" : "0"); uint64_t at = (a <= 4 ? slot[a] : winoff(a)) + b; int o = variant & 2 && at >= 16; if (o) { strcat(s, "o"); at -= 16; }
      call(1, s, a <= 4 ? "I" : "i", c == 8 ? "I" : "i", at); bytes((uint8_t *)&Rr[0], c); ev("\n");
    } else if (!strcmp(cmd, "refof")) { sscanf(r, "%ld %ld", &a, &b); uint64_t p = refof(a, b); ev("[%d]\n", p == (a <= 4 ? slot[a] + b : (uint64_t)(memb(winmem(a)) + winoff(a) + b)));
    } else if (!strcmp(cmd, "cast")) { uint64_t v; unhex(r, (uint8_t *)&v); call(1, "ref_from_i64", "I", "r", v); uint64_t x = Rr[0]; call(1, "i64_from_ref", "r", "I", x); if (x != v) Rr[0] = ~v; bytes((uint8_t *)&Rr[0], 8); ev("\n");
    } else if (!strcmp(cmd, "copy")) { sscanf(r, "%ld %ld %ld %ld %ld", &a, &b, &c, &d, &e); uint64_t x = refof(a, b), y = refof(c, d); call(1, "ref_copy_bytes", "rri", "", x, y, e); ev("[]\n");
    } else if (!strcmp(cmd, "strlen")) { sscanf(r, "%ld %ld", &a, &b); uint64_t x = refof(a, b); call(1, "ref_string_length", "r", "i", x); ev("[%u]\n", (unsigned)Rr[0]);
    } else if (!strcmp(cmd, "fopen")) { sscanf(r, "%ld %ld %7s", &a, &b, s); char p[400]; snprintf(p, 400, "%s/f%ld", dir, b); call(1, "fopen", "rr", "ri", (uint64_t)p, (uint64_t)s); H[a] = Rr[0]; ev("[%d,%d]\n", Rr[0] != 0, (int)Rr[1]);
    } else if (!strcmp(cmd, "fwrite")) { sscanf(r, "%ld %ld %ld %ld %ld", &a, &b, &c, &d, &e); uint64_t x = refof(b, c); call(1, "fwrite", "riir", "i", x, d, e, H[a]); ev("[%d]\n", (int)Rr[0]);
    } else if (!strcmp(cmd, "fread")) { sscanf(r, "%ld %ld %ld %ld %ld", &a, &b, &c, &d, &e); uint64_t x = refof(b, c); call(1, "fread", "riir", "i", x, d, e, H[a]); ev("[%d]\n", (int)Rr[0]);
    } else if (!strcmp(cmd, "fclose")) { sscanf(r, "%ld %ld", &a, &b); call(1, "fclose", "r", "i", H[a]); ev("[%d,", (int)Rr[0]); char p[400]; snprintf(p, 400, "%s/f%ld", dir, b); FILE *f = fopen(p, "rb"); long z = f ? fread(buf, 1, sizeof buf, f) : 0; if (f) fclose(f); bytes(buf, z); ev("]\n");
    } else if (!strcmp(cmd, "stdio")) { call(1, "stdio", "", "rrr"); ev("[%d,%d,%d]\n", Rr[0] == (uint64_t)stdin, Rr[1] == (uint64_t)stdout, Rr[2] == (uint64_t)stderr);
    } else if (!strcmp(cmd, "loadm")) { sscanf(r, "%ld %ld %n", &a, &b, &off); uint8_t *q = malloc(4096); int z = unhex(r + off, q); char *nm = strdup(names[a]); int who = variant & 2 ? 2 : 1;
      call(who, "get_self_runtime_context", "", "r"); uint64_t self = Rr[0]; call(who, "load_module", "rrri", "r", self, (uint64_t)nm, (uint64_t)q, (uint64_t)z); int ok = Rr[0] == 0; memset(q, 0xEE, 4096); free(q); memset(nm, 'Z', strlen(nm)); free(nm);
      long v = -1; if (ok && b == 3) { call(1, "import", "rrri", "r", self, (uint64_t)names[a], (uint64_t)"f", 0L); if (Rr[0]) { call(1, "callref", "r", "i", Rr[0]); v = (int)Rr[0]; } else v = -2; }
      ev("[%d,%ld]\n", ok, v);
    } else if (!strcmp(cmd, "unloadm")) { a = atoi(r); int who = variant & 2 ? 2 : 1; call(who, "get_self_runtime_context", "", "r"); uint64_t self = Rr[0]; call(who, "unload_module", "rr", "r", self, (uint64_t)names[a]); ev("[%d]\n", Rr[0] == 0);
    } else if (!strcmp(cmd, "import")) { sscanf(r, "%ld %7s %ld", &a, s, &c); int who = variant & 2 ? 2 : 1; call(who, "get_self_runtime_context", "", "r"); uint64_t self = Rr[0]; call(who, "import", "rrri", "r", self, (uint64_t)names[a], (uint64_t)s, 0L);
      if (!Rr[0]) ev("[0,0]\n"); else if (!c) ev("[1,-1]\n"); else { call(1, "callref", "r", "i", Rr[0]); ev("[1,%d]\n", (int)Rr[0]); }
    } else if (!strcmp(cmd, "self")) { a = atoi(r); call(a, "get_self_runtime_context", "", "r"); ev("[%d]\n", Rr[0] == (uint64_t)M[a]);
    } else if (!strcmp(cmd, "hostdef")) { ev("["); for (int k = 0; k < 30; k++) { call(1, "host_definition", "i", "r", (uint64_t)k); if (!Rr[0]) break; ev("%s\"%s\"", k ? "," : "", (char *)Rr[0]); } ev("]\n");
    } else if (!strcmp(cmd, "consts")) { call(1, "version", "", "i"); int v = Rr[0] == (uint64_t)pwart_get_version() ? 1 : -1; call(1, "native_index_size", "", "i"); ev("[%d,%d]\n", v, (int)Rr[0]);
    } else harness_fail("command", cmd);
    fflush(out);
  }
}
