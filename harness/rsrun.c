/* Replays histories of RStack.tla and HostApi.tla on the real public interface. */
#include "runner.h"
#include <pwart.h>
#define NS 64
static uint8_t *base;
static void result(long sp, const uint8_t *b, int n) { ev("{\"sp\":%ld,\"r\":[", sp); for (int i = 0; i < n; i++) ev("%s%d", i ? "," : "", b[i]); ev("]}\n"); fflush(out); }
static int width(char t) { return t == 'i' || t == 'f' ? 4 : 8; }
static void setcfg(int a, int b) { struct pwart_global_compile_config c; c.stack_flags = a; c.misc_flags = b; pwart_set_global_compile_config(&c); }

static struct { uint8_t *p; int sz; } st[NS];
static pwart_wasm_function wr[NS], pending; static pwart_module_state md[NS];
static int seen_h; static void *seen_sp;
#define HF(h) static void hf##h(void *sp) { seen_h = h; seen_sp = sp; }
HF(1) HF(2) HF(3) HF(4)
static pwart_host_function_c hfs[] = {0, hf1, hf2, hf3, hf4};
static void resv(struct pwart_symbol_resolver *t, struct pwart_symbol_resolve_request *q) { q->result = NULL; if (q->kind == PWART_KIND_FUNCTION && !strcmp(q->import_module, "env") && !strcmp(q->import_field, "w")) q->result = pending; }
static struct pwart_symbol_resolver rs[4] = {{resv}, {resv}, {resv}, {resv}};
static uint8_t pat(int tag, int k) { return (uint8_t)(tag * 31 + k * 7 + (k >> 8) + 1); }

static void run_case(char **lines, int n) {
  void *sp = NULL; static uint8_t bytes[1 << 16];
  base = pwart_allocate_stack(1 << 16); memset(base, 0xA5, 1 << 16);
  for (int l = 0; l < n; l++) {
    char cmd[16], *r = lines[l], t = 0; int off = 0, a = 0, b = 0, c = 0; uint8_t v[16];
    sscanf(r, "%15s %n", cmd, &off); r += off;
    if (!strcmp(cmd, "START")) { sscanf(r, "%d %d", &a, &b); setcfg(a, 3); sp = base + b; result(b, v, 0);
    } else if (!strcmp(cmd, "CFG")) { a = atoi(r); setcfg(a, 3); result((uint8_t *)sp - base, v, 0);
    } else if (!strcmp(cmd, "SEEK")) { sp = base + atoi(r); result((uint8_t *)sp - base, v, 0);
    } else if (!strcmp(cmd, "PUT")) {
      t = *r; unhex(r + 2, v);
      switch (t) { case 'i': { int x; memcpy(&x, v, 4); pwart_rstack_put_i32(&sp, x); break; } case 'I': { long long x; memcpy(&x, v, 8); pwart_rstack_put_i64(&sp, x); break; }
        case 'f': { float x; memcpy(&x, v, 4); pwart_rstack_put_f32(&sp, x); break; } case 'F': { double x; memcpy(&x, v, 8); pwart_rstack_put_f64(&sp, x); break; }
        default: { void *x; memcpy(&x, v, 8); pwart_rstack_put_ref(&sp, x); } }
      result((uint8_t *)sp - base, v, 0);
    } else if (!strcmp(cmd, "GET")) {
      t = *r; 
      switch (t) { case 'i': { int x = pwart_rstack_get_i32(&sp); memcpy(v, &x, 4); break; } case 'I': { long long x = pwart_rstack_get_i64(&sp); memcpy(v, &x, 8); break; }
        case 'f': { float x = pwart_rstack_get_f32(&sp); memcpy(v, &x, 4); break; } case 'F': { double x = pwart_rstack_get_f64(&sp); memcpy(v, &x, 8); break; }
        default: { void *x = pwart_rstack_get_ref(&sp); memcpy(v, &x, 8); } }
      result((uint8_t *)sp - base, v, width(t));
    } else if (!strcmp(cmd, "CALL")) { /* CALL rs bytes */
      sscanf(r, "%d %n", &a, &off); int z = unhex(r + off, bytes); char *err = NULL;
      pwart_module_state m = pwart_load_module((char *)bytes, z, &err); if (!m) harness_fail("load", err ? err : "?");
      sp = base + a; pwart_call_wasm_function(pwart_get_export_function(m, "f"), sp); pwart_free_module_state(m);
      result(a, v, 0);
    } else if (!strcmp(cmd, "alloc")) { sscanf(r, "%d %d %d", &a, &b, &c); uint8_t *p = pwart_allocate_stack(b); int ok = p != NULL && ((uintptr_t)p & 15) == 0;
      for (int k = 0; k < NS; k++) if (st[k].p && p < st[k].p + st[k].sz && st[k].p < p + b) ok = 0;
      st[a].p = p; st[a].sz = b; for (int k = 0; p && k < b; k++) p[k] = pat(c, k);
      ev("[%d]\n", ok);
    } else if (!strcmp(cmd, "fill")) { sscanf(r, "%d %d %d", &a, &b, &c); for (int k = 0; k < b; k++) st[a].p[k] = pat(c, k); ev("[1]\n");
    } else if (!strcmp(cmd, "check")) { sscanf(r, "%d %d %d", &a, &b, &c); int ok = 1; for (int k = 0; k < b; k++) if (st[a].p[k] != pat(c, k)) ok = 0; ev("[%d]\n", ok);
    } else if (!strcmp(cmd, "frees")) { a = atoi(r); pwart_free_stack(st[a].p); st[a].p = NULL; ev("[]\n");
    } else if (!strcmp(cmd, "wrap")) { sscanf(r, "%d %d", &a, &b); wr[a] = pwart_wrap_host_function_c(hfs[b]); ev("[]\n");
    } else if (!strcmp(cmd, "callw")) { sscanf(r, "%d %d", &a, &b); seen_h = 0; pwart_call_wasm_function(wr[a], base + b); ev("[%d,%ld]\n", seen_h, (long)((uint8_t *)seen_sp - base));
    } else if (!strcmp(cmd, "freew")) { a = atoi(r); pwart_free_wrapped_function(wr[a]); wr[a] = NULL; ev("[]\n");
    } else if (!strcmp(cmd, "load")) { sscanf(r, "%d %d %d %n", &a, &b, &c, &off); int z = unhex(r + off, bytes); char *err = NULL;
      if (b == 0) md[a] = pwart_load_module((char *)bytes, z, &err);
      else { pending = wr[c]; pwart_module_compiler k = pwart_new_module_compiler(); pwart_set_symbol_resolver(k, &rs[b]); err = pwart_compile(k, (char *)bytes, z); md[a] = err ? NULL : pwart_get_module_state(k); pwart_free_module_compiler(k); }
      memset(bytes, 0xEE, sizeof bytes); ev("[%d]\n", md[a] != NULL);
    } else if (!strcmp(cmd, "callm")) { sscanf(r, "%d %d", &a, &b); seen_h = 0; sp = base + b; pwart_rstack_put_i32(&sp, 5000 + b); pwart_call_wasm_function(pwart_get_export_function(md[a], "f"), base + b);
      sp = seen_sp; ev("[%d,%d]\n", seen_h, seen_h ? pwart_rstack_get_i32(&sp) : 0);
    } else if (!strcmp(cmd, "setud")) { sscanf(r, "%d %d", &a, &b); pwart_module_state_set_user_data(md[a], (void *)(0x100000000L + b)); ev("[]\n");
    } else if (!strcmp(cmd, "setres")) { sscanf(r, "%d %d", &a, &b); pwart_set_state_symbol_resolver(md[a], b ? &rs[b] : NULL); ev("[]\n");
    } else if (!strcmp(cmd, "look")) { a = atoi(r); struct pwart_inspect_result1 q; memset(&q, 0x5A, sizeof q); char *e = pwart_inspect_module_state(md[a], &q); void *u = pwart_module_state_get_user_data(md[a]);
      int x = -1; if (q.symbol_resolver == NULL) x = 0; for (int k = 1; k < 4; k++) if (q.symbol_resolver == &rs[k]) x = k;
      ev("[%ld,%d]\n", e ? -9 : u ? (long)((char *)u - (char *)0x100000000L) : 0, x);
    } else if (!strcmp(cmd, "freem")) { a = atoi(r); ev("["); if (pwart_free_module_state(md[a])) ev("9"); md[a] = NULL; ev("]\n");
    } else if (!strcmp(cmd, "setcfg")) { sscanf(r, "%d %d", &a, &b); setcfg(a, b); ev("[]\n");
    } else if (!strcmp(cmd, "getcfg")) { struct pwart_global_compile_config q; q.stack_flags = 77; q.misc_flags = 77; pwart_get_global_compile_config(&q); ev("[%d,%d]\n", q.stack_flags, q.misc_flags);
    } else harness_fail("command", cmd);
    fflush(out);
  }
}
