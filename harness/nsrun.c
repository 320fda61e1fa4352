/* Replays histories of namespace operations on the real namespace.
 *   NS n                 create n namespaces          NAMES hex hex ...   the names of the snapshot
 *   DH k name h way      define host module h         DW k name way bytes define a wasm module
 *   RM k name            remove                       DEL k               delete
 *   SG k name v          write symbol g
 * each followed by the flags of the snapshot: for every namespace and name, bit 0 = f may be called, bit 1 = g may be read */
#include "runner.h"
#include <pwart.h>
#define MAXN 40
static pwart_namespace nss[8]; static int alive[8], nns;
static char *names[MAXN]; static int nnames;
static pwart_module_state inst[4096]; static int ninst;
static int cb[256][3], ncb;
static int deleting;
static int gcell[8] = {0, 11, 12, 13};
static char *cur_name; static int cur_ns;

static int nsidx(pwart_namespace p) { for (int k = 1; k <= nns; k++) if (nss[k] == p) return k; return 0; }
#define HF(h) static void hf##h(void *sp) { void *s = sp; pwart_rstack_put_i32(&s, 100 + h); }
HF(1) HF(2) HF(3) HF(4) HF(5)
struct host { struct pwart_host_module base; int h; };
static void hresolve(struct pwart_host_module *t, struct pwart_symbol_resolve_request *q) {
  int h = ((struct host *)t)->h; q->result = NULL;
  if (q->kind == PWART_KIND_FUNCTION && !strcmp(q->import_field, "f")) q->result = pwart_wrap_host_function_c(h == 1 ? hf1 : h == 2 ? hf2 : hf5);
  if (q->kind == PWART_KIND_GLOBAL && !strcmp(q->import_field, "g") && h != 5) q->result = &gcell[h];
}
static void note(int c, struct pwart_host_module *t) {
  int h = ((struct host *)t)->h, k = nsidx(t->namespace2);
  /* when attached, the module can be found under its name already */
  if (c == 'a' && cur_name) { struct pwart_named_module *m = pwart_namespace_find_module(nss[cur_ns], cur_name); if (!m || m->type != PWART_MODULE_TYPE_HOST_MODULE || m->val.host != t) k = -1; }
  /* when detached, it is no longer there */
  if (c == 'd' && cur_name) { struct pwart_named_module *m = pwart_namespace_find_module(nss[cur_ns], cur_name); if (m && m->type == PWART_MODULE_TYPE_HOST_MODULE && m->val.host == t) k = -2; }
  if (ncb < 256) { cb[ncb][0] = c; cb[ncb][1] = h; cb[ncb++][2] = k; }
}
static void onatt(struct pwart_host_module *t) { note('a', t); }
static void ondet(struct pwart_host_module *t) { note('d', t); }
static struct host h1, h2, h5; static struct pwart_host_module *hm[6];
/* host 5 brings modules of its own */
static void put_all(pwart_namespace ns, char c, int n, int def) {
  for (int j = 1; j <= n; j++) { char nm[16]; sprintf(nm, "sub/%c%d", c, j);
    if (def) pwart_namespace_define_host_module(ns, nm, hm[4]); else if (pwart_namespace_remove_module(ns, nm)) note('e', &h5.base); }
}
static void onatt5(struct pwart_host_module *t) { note('a', t); put_all(t->namespace2, 'P', 8, 1); }
static void ondet5(struct pwart_host_module *t) { note('d', t); put_all(t->namespace2, 'P', 8, 0); if (!deleting) put_all(t->namespace2, 'Q', 7, 1); }
static const char *n3[] = {"f", "g"}; static void *s3[2]; static const char *n4[] = {"f"}; static pwart_host_function_c s4[] = {hf4};

static void *sym(int k, const char *mod, const char *fld, int kind) {
  struct pwart_symbol_resolve_request q = {mod, fld, kind, (void *)&q};
  struct pwart_symbol_resolver *r = pwart_namespace_resolver(nss[k]); r->resolve(r, &q); return q.result;
}
static void snap(char *fl) {
  static char *stack; if (!stack) stack = pwart_allocate_stack(65536);
  ev("[");
  for (int k = 1; k <= nns; k++) {
    ev("%s[", k > 1 ? "," : "");
    for (int j = 0; j < nnames && alive[k]; j++) {
      int flag = *fl ? *fl++ - '0' : 0, t = 0, x = 0, f = -1, g = -1;
      char *nm = strdup(names[j]);
      struct pwart_named_module *m = pwart_namespace_find_module(nss[k], nm);
      if (m) {
        t = m->type; x = -1;
        if (strcmp(m->name, nm)) t = 90;
        if (t == 1) { for (int h = 1; h <= 5; h++) if (m->val.host == hm[h]) x = h; if (x < 0 && sym(k, nm, "this", PWART_KIND_GLOBAL) == nss[k]) x = 0; }
        if (t == 2) for (int i = 1; i <= ninst; i++) if (inst[i] == m->val.wasm) x = i;
      }
      void *p = sym(k, nm, "f", PWART_KIND_FUNCTION);
      if (p && t == 2 && p != pwart_get_export_function(m->val.wasm, "f")) f = -99;
      else if (p && !(flag & 1)) f = -2;
      else if (p) { void *sp = stack; pwart_call_wasm_function(p, stack); f = pwart_rstack_get_i32(&sp); }
      p = sym(k, nm, "g", PWART_KIND_GLOBAL);
      if (t == 1 && x == 0) p = NULL;
      if (p && t == 2 && p != pwart_get_export_global(m->val.wasm, "g")) g = -99;
      else if (p && !(flag & 2)) g = -2;
      else if (p) g = *(int *)p;
      if (t == 1 && x == 0) g = nsidx(sym(k, nm, "this", PWART_KIND_GLOBAL));
      if (sym(k, nm, "zz", PWART_KIND_FUNCTION) || sym(k, nm, "zz", PWART_KIND_GLOBAL) || (t == 2 && (sym(k, nm, "f", PWART_KIND_GLOBAL) || sym(k, nm, "g", PWART_KIND_MEMORY)))) f = -98;
      ev("%s[%d,%d,%d,%d]", j ? "," : "", t, x, f, g);
      free(nm);
    }
    ev("]");
  }
  ev("]");
}
static void run_case(char **lines, int n) {
  h1.h = 1; h1.base.resolve = hresolve; h1.base.on_attached = onatt; h1.base.on_detached = ondet; h1.base.namespace2 = NULL;
  h2.h = 2; h2.base.resolve = hresolve; h2.base.on_attached = NULL; h2.base.on_detached = ondet; h2.base.namespace2 = NULL;
  h5.h = 5; h5.base.resolve = hresolve; h5.base.on_attached = onatt5; h5.base.on_detached = ondet5; h5.base.namespace2 = NULL; hm[5] = &h5.base;
  s3[0] = pwart_wrap_host_function_c(hf3); s3[1] = &gcell[3];
  hm[1] = &h1.base; hm[2] = &h2.base; hm[3] = pwart_namespace_new_host_module2(n3, s3, 2); hm[4] = pwart_namespace_new_host_module(n4, s4, 1);
  for (int l = 0; l < n; l++) {
    char cmd[16], s[2000], fl[1000] = ""; int k, a, w = 0, off, ok = 1; uint8_t nb[1000]; char *r = lines[l];
    sscanf(r, "%15s %n", cmd, &off); r += off;
    if (!strcmp(cmd, "NS")) { nns = atoi(r); for (k = 1; k <= nns; k++) { nss[k] = pwart_namespace_new(); alive[k] = 1; } continue; }
    if (!strcmp(cmd, "NAMES")) { char *t = strtok(r, " "); while (t) { int z = unhex(t + 1, nb); nb[z] = 0; names[nnames++] = strdup((char *)nb); t = strtok(NULL, " "); } continue; }
    ncb = 0; cur_name = NULL; char *nm = NULL;
    if (strcmp(cmd, "DEL")) { sscanf(r, "%d %1999s %n", &k, s, &off); r += off; int z = unhex(s + 1, nb); nb[z] = 0; nm = malloc(z + 1); memcpy(nm, nb, z + 1); }
    else { sscanf(r, "%d %n", &k, &off); r += off; }
    cur_ns = k;
    if (!strcmp(cmd, "DH")) {
      sscanf(r, "%d %d %999s", &a, &w, fl); cur_name = nm;
      if (!w) pwart_namespace_define_host_module(nss[k], nm, hm[a]);
      else { struct pwart_named_module *q = malloc(sizeof *q); q->name = nm; q->type = PWART_MODULE_TYPE_HOST_MODULE; q->val.host = hm[a]; ok = pwart_namespace_define_module(nss[k], q) == NULL; memset(q, 0xEE, sizeof *q); free(q); }
    } else if (!strcmp(cmd, "DW")) {
      sscanf(r, "%d %n", &w, &off); r += off; uint8_t *b = malloc(strlen(r) / 2 + 1); int z = unhex(r, b); sscanf(r, "%*s %999s", fl);
      b = realloc(b, z ? z : 1); char *err = NULL; pwart_module_state st = NULL;
      if (!w) { st = pwart_namespace_define_wasm_module(nss[k], nm, (char *)b, z, &err); if ((st == NULL) == (err == NULL)) ok = 9; else ok = st != NULL; }
      else {
        pwart_module_compiler c = pwart_new_module_compiler(); pwart_set_symbol_resolver(c, pwart_namespace_resolver(nss[k])); err = pwart_compile(c, (char *)b, z);
        ok = err == NULL; if (ok) st = pwart_get_module_state(c); pwart_free_module_compiler(c);
        if (ok) { struct pwart_named_module q; q.name = nm; q.type = PWART_MODULE_TYPE_WASM_MODULE; q.val.wasm = st; if (pwart_namespace_define_module(nss[k], &q)) ok = 8; }
      }
      if (st) inst[++ninst] = st;
      memset(b, 0xEE, z); free(b);
    } else if (!strcmp(cmd, "RM")) { sscanf(r, "%999s", fl); cur_name = nm; ok = pwart_namespace_remove_module(nss[k], nm) == NULL;
    } else if (!strcmp(cmd, "DEL")) { sscanf(r, "%999s", fl); deleting = 1; ok = pwart_namespace_delete(nss[k]) == NULL; deleting = 0; alive[k] = 0;
    } else if (!strcmp(cmd, "SG")) { sscanf(r, "%d %999s", &a, fl); int *p = sym(k, nm, "g", PWART_KIND_GLOBAL); if (p) *p = a; else ok = 0;
    } else harness_fail("command", cmd);
    cur_name = NULL;
    if (nm) { memset(nm, 'Q', strlen(nm)); free(nm); }
    ev("{\"ok\":%d,\"cb\":[", ok); for (int i = 0; i < ncb; i++) ev("%s[\"%c\",%d,%d]", i ? "," : "", cb[i][0], cb[i][1], cb[i][2]);
    ev("],\"snap\":"); snap(fl); ev("}\n"); fflush(out);
  }
}
