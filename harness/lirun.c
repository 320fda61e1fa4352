/* Emits scripted programs through the public functions of sljitLir.h, runs them and prints what was observed:
 * result registers, memory, host calls, and whether the caller's registers and stack survived. */
#define main runner_main
#include "runner.h"
#undef main
#include "sljitLir.h"

_Static_assert(SLJIT_NUMBER_OF_REGISTERS == 13 && SLJIT_NUMBER_OF_FLOAT_REGISTERS == 15 && SLJIT_NUMBER_OF_SAVED_REGISTERS == 6 && SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS == 0, "register file");

typedef struct { const char *n; int op; } OpName;
static const OpName OPS[] = {
  {"lmul_uw", SLJIT_LMUL_UW}, {"lmul_sw", SLJIT_LMUL_SW}, {"divmod_uw", SLJIT_DIVMOD_UW}, {"divmod_sw", SLJIT_DIVMOD_SW}, {"div_uw", SLJIT_DIV_UW}, {"div_sw", SLJIT_DIV_SW},
  {"mov", SLJIT_MOV}, {"mov_u8", SLJIT_MOV_U8}, {"mov_s8", SLJIT_MOV_S8}, {"mov_u16", SLJIT_MOV_U16}, {"mov_s16", SLJIT_MOV_S16}, {"mov_u32", SLJIT_MOV_U32}, {"mov_s32", SLJIT_MOV_S32}, {"mov_p", SLJIT_MOV_P},
  {"clz", SLJIT_CLZ}, {"ctz", SLJIT_CTZ}, {"rev", SLJIT_REV}, {"rev_u16", SLJIT_REV_U16}, {"rev_s16", SLJIT_REV_S16}, {"rev_u32", SLJIT_REV_U32}, {"rev_s32", SLJIT_REV_S32},
  {"add", SLJIT_ADD}, {"addc", SLJIT_ADDC}, {"sub", SLJIT_SUB}, {"subc", SLJIT_SUBC}, {"mul", SLJIT_MUL}, {"and", SLJIT_AND}, {"or", SLJIT_OR}, {"xor", SLJIT_XOR},
  {"shl", SLJIT_SHL}, {"mshl", SLJIT_MSHL}, {"lshr", SLJIT_LSHR}, {"mlshr", SLJIT_MLSHR}, {"ashr", SLJIT_ASHR}, {"mashr", SLJIT_MASHR}, {"rotl", SLJIT_ROTL}, {"rotr", SLJIT_ROTR}, {0, 0}};
static const OpName FOPS1[] = {{"mov", SLJIT_MOV_F64}, {"neg", SLJIT_NEG_F64}, {"abs", SLJIT_ABS_F64}, {0, 0}};
static const OpName FOPS2[] = {{"add", SLJIT_ADD_F64}, {"sub", SLJIT_SUB_F64}, {"mul", SLJIT_MUL_F64}, {"div", SLJIT_DIV_F64}, {0, 0}};
static int opof(const OpName *t, const char *n, int w) {
  for (; t->n; t++) if (!strcmp(t->n, n)) return (w == 4 ? (t->op == SLJIT_MOV ? SLJIT_MOV32 : t->op | SLJIT_32) : t->op);
  harness_fail("opcode", n); return 0;
}

#define MAXN 4096
static struct sljit_compiler *C;
static struct sljit_jump *jumps[MAXN]; static int jt[MAXN], njt;
static char bound[MAXN]; static struct sljit_label *labels[MAXN]; static struct sljit_const *consts[MAXN]; static int constop[MAXN];
static sljit_uw jaddr[MAXN], laddr[MAXN], abaddr[MAXN], caddr[MAXN];
static struct { uint8_t *base; int len; uint8_t init[4096]; } reg[4];
static uint64_t rets[64]; static int nrets;
static char hsig[8][8];
static int errcode; static int retvoid_dummy;

#ifdef OLDCPU
unsigned lir_cpu_off;
#endif
#ifdef LIREXEC
/* memory for the code: below 2 GiB, below 4 GiB or anywhere; at most 15 bytes (checked) lie between its end and an inaccessible page */
static int xplace; static uint8_t *xslack; static int xslackn;
void *lirexec_alloc(unsigned long size) {
  size_t n = ((size + 15 + 4095) & ~4095ul) + 4096; uint8_t *p = MAP_FAILED;
  if (xplace) for (uintptr_t a = xplace == 1 ? 0x21000000ul : 0xa1000000ul, k = 0; p == MAP_FAILED && k < 256; k++, a += 0x400000) p = mmap((void *)a, n, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) p = mmap(NULL, n, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) harness_fail("exec", "mmap");
  mprotect(p + n - 4096, 4096, PROT_NONE); memset(p, 0xcc, n - 4096);
  uint8_t *c = (uint8_t *)((uintptr_t)(p + n - 4096 - size) & ~15ul); xslack = c + size; xslackn = (int)(p + n - 4096 - xslack);
  return c;
}
void lirexec_free(void *p) {} /* the process ends with its program */
static void lirexec_check(void) { for (int k = 0; k < xslackn; k++) if (xslack[k] != 0xcc) errcode = -118; }
#endif

/* ---- the outside of the generated code ---- */
static struct { uint64_t i[4]; double f[4]; uint64_t rsp, rax, xmm0; } hx __attribute__((used));
static struct { void *fn; uint64_t i[4], f[4]; uint64_t rax, xmm0, bad, sp; } rx __attribute__((used));
static int ncalls; static char *clog; static size_t clogn; static FILE *clf;
static void __attribute__((used)) host_c(long h) {
  int ni = 0, nf = 0; union { double d; uint64_t u; } x;
  fprintf(clf, "%s[%ld", ncalls ? "," : "", h);
  for (char *t = hsig[h]; *t; t++) { uint64_t v; if (*t == 'd' || *t == 'f') { x.d = hx.f[nf++]; v = x.u; } else v = hx.i[ni++];
    fprintf(clf, ",\""); for (int k = 0; k < 8; k++) fprintf(clf, "%02x", (int)(v >> (8 * k)) & 255); fprintf(clf, "\""); }
  fprintf(clf, "]");
  if (hx.rsp & 15) fprintf(clf, ",[\"stack not aligned\"]");
  hx.rax = hx.xmm0 = nrets ? rets[ncalls % nrets] : 0; ncalls++;
}
__asm__(
  ".macro HOST n\n .globl host\\n\nhost\\n:\n movl $\\n, %r10d\n jmp host_common\n .endm\n"
  "HOST 1\nHOST 2\nHOST 3\nHOST 4\n"
  "host_common:\n"
  " lea hx(%rip), %r11\n mov %rdi, 0(%r11)\n mov %rsi, 8(%r11)\n mov %rdx, 16(%r11)\n mov %rcx, 24(%r11)\n"
  " movsd %xmm0, 32(%r11)\n movsd %xmm1, 40(%r11)\n movsd %xmm2, 48(%r11)\n movsd %xmm3, 56(%r11)\n"
  " lea 8(%rsp), %rax\n mov %rax, 64(%r11)\n push %rbp\n mov %rsp, %rbp\n and $-16, %rsp\n mov %r10, %rdi\n call host_c\n mov %rbp, %rsp\n pop %rbp\n"
  " movabs $0x5a5a3c3c96960f0f, %rcx\n mov %rcx, %rdx\n mov %rcx, %rsi\n mov %rcx, %rdi\n mov %rcx, %r8\n mov %rcx, %r9\n mov %rcx, %r10\n"
  " movq %rcx, %xmm1\n movq %rcx, %xmm2\n movq %rcx, %xmm3\n movq %rcx, %xmm4\n movq %rcx, %xmm5\n movq %rcx, %xmm6\n movq %rcx, %xmm7\n movq %rcx, %xmm8\n"
  " movq %rcx, %xmm9\n movq %rcx, %xmm10\n movq %rcx, %xmm11\n movq %rcx, %xmm12\n movq %rcx, %xmm13\n movq %rcx, %xmm14\n movq %rcx, %xmm15\n"
  " lea hx(%rip), %r11\n mov 72(%r11), %rax\n movsd 80(%r11), %xmm0\n mov %rcx, %r11\n"
  " cmp %rcx, %rax\n ret\n"
  ".globl enter_code\nenter_code:\n"
  " push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n sub $8, %rsp\n"
  " lea rx(%rip), %r11\n mov %rsp, 96(%r11)\n"
  " mov 8(%r11), %rdi\n mov 16(%r11), %rsi\n mov 24(%r11), %rdx\n mov 32(%r11), %rcx\n"
  " movsd 40(%r11), %xmm0\n movsd 48(%r11), %xmm1\n movsd 56(%r11), %xmm2\n movsd 64(%r11), %xmm3\n"
  " movabs $0x1111222233334444, %rbx\n lea 1(%rbx), %rbp\n lea 2(%rbx), %r12\n lea 3(%rbx), %r13\n lea 4(%rbx), %r14\n lea 5(%rbx), %r15\n"
  " mov $0x77665544, %eax\n mov %rax, %r8\n mov %rax, %r9\n mov %rax, %r10\n"
  " call *0(%r11)\n"
  " lea rx(%rip), %r11\n mov %rax, 72(%r11)\n movsd %xmm0, 80(%r11)\n xor %eax, %eax\n"
  " movabs $0x1111222233334444, %r10\n cmp %r10, %rbx\n je 1f\n or $1, %eax\n"
  "1: inc %r10\n cmp %r10, %rbp\n je 1f\n or $2, %eax\n 1: inc %r10\n cmp %r10, %r12\n je 1f\n or $4, %eax\n 1: inc %r10\n cmp %r10, %r13\n je 1f\n or $8, %eax\n"
  "1: inc %r10\n cmp %r10, %r14\n je 1f\n or $16, %eax\n 1: inc %r10\n cmp %r10, %r15\n je 1f\n or $32, %eax\n 1: cmp 96(%r11), %rsp\n je 1f\n or $64, %eax\n"
  "1: mov 96(%r11), %rsp\n mov %rax, 88(%r11)\n"
  " add $8, %rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
extern void host1(void), host2(void), host3(void), host4(void), enter_code(void);
static void *hostfn0(int h) { return h == 1 ? (void *)host1 : h == 2 ? (void *)host2 : h == 3 ? (void *)host3 : (void *)host4; }
static void *hostfn(int h) { /* with code at low addresses: within reach of a direct call */
#ifdef LIREXEC
  static uint8_t *st;
  if (xplace && !st) { st = mmap((void *)0x60000000ul, 4096, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (st == MAP_FAILED) st = NULL;
    for (int k = 0; k < 5 && st; k++) { static const uint8_t j[6] = {0xff, 0x25, 2, 0, 0, 0}; void *f = hostfn0(k); memcpy(st + 64 * k, j, 6); memcpy(st + 64 * k + 8, &f, 8); } }
  if (xplace && st) return st + 64 * h;
#endif
  return hostfn0(h);
}

/* ---- operands ---- */
static int rn(int n) { return n; }
typedef struct { sljit_s32 o; sljit_sw w; } Op;
static Op parse(const char *s) {
  Op r = {0, 0};
  switch (*s) {
    case 'r': { int a = atoi(s + 1); const char *c = strchr(s, ':'); r.o = c ? SLJIT_REG_PAIR(rn(a), rn(atoi(c + 1))) : rn(a); return r; }
    case 'v': r.o = SLJIT_VR0 + atoi(s + 1) - 1; return r;
    case 'f': r.o = SLJIT_FR0 + atoi(s + 1) - 1; return r;
    case 'i': r.o = SLJIT_IMM; r.w = (sljit_sw)strtoull(s + 1, 0, 16); return r;
    case 's': r.o = SLJIT_MEM1(SLJIT_SP); r.w = atoi(s + 1); return r;
    case 'm': { int b, x, sh; unsigned long long off; if (sscanf(s + 1, "%d,%d,%d,%llx", &b, &x, &sh, &off) != 4) harness_fail("operand", s);
      if (x) { r.o = SLJIT_MEM2(rn(b), rn(x)); r.w = sh; } else if (b) { r.o = SLJIT_MEM1(rn(b)); r.w = (sljit_sw)off; } else { r.o = SLJIT_MEM0(); r.w = (sljit_sw)off; } return r; }
  }
  harness_fail("operand", s); return r;
}
static int argt(char c) {
  switch (c) { case 'w': return SLJIT_ARG_TYPE_W; case '3': return SLJIT_ARG_TYPE_32; case 'p': return SLJIT_ARG_TYPE_P; case 'd': return SLJIT_ARG_TYPE_F64; case 'f': return SLJIT_ARG_TYPE_F32;
    case 'W': return SLJIT_ARG_TYPE_W_R; case 'T': return SLJIT_ARG_TYPE_32_R; case 'P': return SLJIT_ARG_TYPE_P_R; case 'v': return SLJIT_ARG_TYPE_RET_VOID; }
  harness_fail("type", &c); return 0;
}
/* "rt:args", both possibly "-" */
static int argtypes(const char *s) {
  int t = SLJIT_ARG_RETURN(argt(s[0])), k = 1;
  for (s += 2; *s && *s != '-'; s++, k++) t |= SLJIT_ARG_VALUE(argt(*s), k);
  return t;
}
#ifndef FAILMODE
static void ck(int e) { if (e && !errcode) errcode = e; }
static void obj(const void *p) { if (!p) { int e = sljit_get_compiler_error(C); ck(e ? e : -113); } }
#else
static void ck(int e);            /* what a call gave back */
static void obj(const void *p);   /* the object a call gave back */
#endif
static void *nx(void *p, int kind) { return kind == 0 ? (void *)sljit_get_next_label(p) : kind == 1 ? (void *)sljit_get_next_jump(p) : (void *)sljit_get_next_const(p); }
static int nth(void *p, void *x, int kind) { int n = 0; while (p && p != x) n++, p = nx(p, kind); return p ? n : -1; }
static void *at(void *p, int n, int kind) { while (n-- > 0 && p) p = nx(p, kind); return p; }
/* memory the compiler gives out keeps what is put there until the compiler is freed */
static struct { uint8_t *p; int n; uint8_t v; } am[256]; static int nam;
static void almem_check(void) { for (int i = 0; i < nam; i++) for (int k = 0; k < am[i].n; k++) if (am[i].p[k] != am[i].v) { ck(-110); return; } }
#ifdef FAILMODE
static void almem(int n);
static void serialize(int opt);
#else
static void almem(int n) {
  uint8_t *p = sljit_alloc_memory(C, n); if (!p || ((sljit_uw)p & 7)) { ck(-111); return; }
  if (nam < 256) { am[nam].p = p; am[nam].n = n; am[nam].v = 0x51 + nam; memset(p, am[nam].v, n); nam++; }
  if (sljit_alloc_memory(C, 0) || sljit_alloc_memory(C, 129)) ck(-112);
}
static void serialize(int opt) {
  static int L[MAXN], J[MAXN], K[MAXN], B[MAXN], A[MAXN]; sljit_uw size = 0;
  for (int i = 0; i < MAXN; i++) {
    L[i] = labels[i] ? (int)sljit_get_label_index(labels[i]) : -1;
    B[i] = bound[i] ? (int)sljit_get_label_index(sljit_jump_get_label(jumps[i])) : -1; A[i] = jumps[i] && sljit_jump_is_mov_addr(jumps[i]);
    J[i] = jumps[i] ? nth(sljit_get_first_jump(C), jumps[i], 1) : -1; K[i] = consts[i] ? nth(sljit_get_first_const(C), consts[i], 2) : -1;
  }
  sljit_uw *b = sljit_serialize_compiler(C, opt & 1 ? SLJIT_SERIALIZE_IGNORE_DEBUG : 0, &size);
  if (!b || size % sizeof(sljit_uw)) { ck(-100); return; }
  /* incomplete or foreign data is refused */
  sljit_uw gs = (size + 4095) & ~(sljit_uw)4095; char *gp = mmap(NULL, gs + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(gp + gs, 4096, PROT_NONE);
  for (sljit_uw k = 0, step = size > 1024 ? 8 * (1 + size / 256) : 8; k < size; k += step) { memcpy(gp + gs - k, b, k); if (sljit_deserialize_compiler((sljit_uw *)(gp + gs - k), k, 0, NULL)) { ck(-105); return; } }
  b[0] ^= 1; if (sljit_deserialize_compiler(b, size, 0, NULL)) { ck(-106); return; } b[0] ^= 1;
  if (!(opt & 2)) {
    /* the buffer moves elsewhere, the first compiler is gone */
    sljit_uw *c = (sljit_uw *)(gp + gs - size); memcpy(c, b, size); memset(b, 0xa5, size); SLJIT_FREE(b, NULL); b = c;
    struct sljit_compiler *old = C; C = sljit_deserialize_compiler(b, size, 0, NULL); munmap(gp, gs + 4096);
#if SLJIT_DEBUG
    /* documented: no buffer without debug information is accepted by a build with it */
    if (opt & 1) { if (C) { ck(-103); return; } C = old; return; }
#endif
    if (!C) { C = old; ck(-101); return; }
    almem_check(); nam = 0; sljit_free_compiler(old);
#ifdef VERBOSE
    sljit_compiler_verbose(C, stderr);
#endif
    for (int i = 0; i < MAXN; i++) {
      if (L[i] >= 0) labels[i] = at(sljit_get_first_label(C), L[i], 0);
      if (J[i] >= 0) jumps[i] = at(sljit_get_first_jump(C), J[i], 1);
      if (K[i] >= 0) consts[i] = at(sljit_get_first_const(C), K[i], 2);
      if ((L[i] >= 0 && !labels[i]) || (J[i] >= 0 && !jumps[i]) || (K[i] >= 0 && !consts[i])) { ck(-102); return; }
    }
    for (int i = 0; i < MAXN; i++) {
      if (J[i] >= 0) { /* what the jumps know about themselves is kept */
        struct sljit_jump *j = jumps[i];
        if (!!sljit_jump_has_label(j) != (B[i] >= 0) || sljit_jump_has_target(j) || !!sljit_jump_is_mov_addr(j) != A[i] || (B[i] >= 0 && sljit_jump_get_label(j) != labels[jt[i]])) { ck(-104); return; }
      }
    }
  } else { free(b); munmap(gp, gs + 4096); } /* serialization leaves the compiler as it was */
}
#endif
/* a register move in machine code, through the machine's register numbers */
static void custom(int fl, int d, int s) {
  uint8_t b[4]; int n = 0, x = sljit_get_register_index(fl ? SLJIT_FLOAT_REGISTER : SLJIT_GP_REGISTER, d), y = sljit_get_register_index(fl ? SLJIT_FLOAT_REGISTER : SLJIT_GP_REGISTER, s);
  if (fl) { b[n++] = 0x40 | (x >> 3) << 2 | y >> 3; b[n++] = 0x0f; b[n++] = 0x28; b[n++] = 0xc0 | (x & 7) << 3 | (y & 7); }
  else { b[n++] = 0x48 | (y >> 3) << 2 | x >> 3; b[n++] = 0x89; b[n++] = 0xc0 | (y & 7) << 3 | (x & 7); }
  ck(sljit_emit_op_custom(C, b, n));
}

/* ---- vector operations: what the call and its test form returned, whether code came out that should not ---- */
static const int VRS[] = {0, 0, 0, SLJIT_SIMD_REG_64, SLJIT_SIMD_REG_128, SLJIT_SIMD_REG_256, SLJIT_SIMD_REG_512};
static const int VES[] = {SLJIT_SIMD_ELEM_8, SLJIT_SIMD_ELEM_16, SLJIT_SIMD_ELEM_32, SLJIT_SIMD_ELEM_64, SLJIT_SIMD_ELEM_128, SLJIT_SIMD_ELEM_256};
static const int VAL[] = {SLJIT_SIMD_MEM_UNALIGNED, SLJIT_SIMD_MEM_ALIGNED_16, SLJIT_SIMD_MEM_ALIGNED_32, SLJIT_SIMD_MEM_ALIGNED_64, SLJIT_SIMD_MEM_ALIGNED_128, SLJIT_SIMD_MEM_ALIGNED_256, SLJIT_SIMD_MEM_ALIGNED_512};
static const int VEX2[] = {0, SLJIT_SIMD_EXTEND_16, SLJIT_SIMD_EXTEND_32, SLJIT_SIMD_EXTEND_64};
static int vrc[MAXN], nvrc;
static int lalign[MAXN];   /* what the address of a label is a multiple of */
#ifdef FAILMODE
#define VEC(call, ty) do { int type = (ty); if ((type & 0x3f000) == SLJIT_SIMD_REG_256 && !sljit_has_cpu_feature(SLJIT_HAS_AVX2)) break; ck(call); } while (0)
#else
#define VEC(call, ty) do { int type = (ty) | SLJIT_SIMD_TEST; sljit_uw s0 = C->size; int a = call, bad = C->size != s0; type = (ty); s0 = C->size; int b = call; if (b && C->size != s0) bad = 1; \
  vrc[nvrc++] = bad ? 9 : a != b ? 8 : b == SLJIT_SUCCESS ? 0 : b == SLJIT_ERR_UNSUPPORTED ? 1 : 2; } while (0)
#endif
static int vector(char **t) {
  const char *c = t[0];
#define W(i) atoi(t[i])
#define B(rs, es, fl) (VRS[W(rs)] | VES[W(es)] | (W(fl) ? SLJIT_SIMD_FLOAT : 0))
  if (!strcmp(c, "vmov")) { /* st fl rs es al v o */ Op o = parse(t[7]); VEC(sljit_emit_simd_mov(C, type, W(6), o.o, o.w), B(3, 4, 2) | VAL[W(5)] | (W(1) ? SLJIT_SIMD_STORE : 0)); }
  else if (!strcmp(c, "vrep")) { /* fl rs es v o */ Op o = parse(t[5]); VEC(sljit_emit_simd_replicate(C, type, W(4), o.o, o.w), B(2, 3, 1)); }
  else if (!strcmp(c, "vlan")) { /* st fl rs es z sg w32 v ln o */ Op o = parse(t[10]);
    VEC(sljit_emit_simd_lane_mov(C, type, W(8), W(9), o.o, o.w), B(3, 4, 2) | (W(1) ? SLJIT_SIMD_STORE : 0) | (W(5) ? SLJIT_SIMD_LANE_ZERO : 0) | (W(6) ? SLJIT_SIMD_LANE_SIGNED : 0) | (W(7) ? SLJIT_32 : 0)); }
  else if (!strcmp(c, "vlrp")) { /* fl rs es v v2 ln */ VEC(sljit_emit_simd_lane_replicate(C, type, W(4), W(5), W(6)), B(2, 3, 1)); }
  else if (!strcmp(c, "vext")) { /* sg fl rs es e2 v o */ Op o = parse(t[7]); VEC(sljit_emit_simd_extend(C, type, W(6), o.o, o.w), B(3, 4, 2) | VEX2[W(5)] | (W(1) ? SLJIT_SIMD_EXTEND_SIGNED : 0)); }
  else if (!strcmp(c, "vsgn")) { /* fl rs es w32 v o */ Op o = parse(t[6]); VEC(sljit_emit_simd_sign(C, type, W(5), o.o, o.w), B(2, 3, 1) | SLJIT_SIMD_STORE | (W(4) ? SLJIT_32 : 0)); }
  else if (!strcmp(c, "vop2")) { /* op fl rs es al v v1 o */ Op o = parse(t[8]);
    int op = t[1][0] == 'a' ? SLJIT_SIMD_OP2_AND : t[1][0] == 'o' ? SLJIT_SIMD_OP2_OR : t[1][0] == 'x' ? SLJIT_SIMD_OP2_XOR : SLJIT_SIMD_OP2_SHUFFLE;
    VEC(sljit_emit_simd_op2(C, type, W(6), W(7), o.o, o.w), B(3, 4, 2) | VAL[W(5)] | op); }
  else if (!strcmp(c, "vent")) { /* vex s sv vs fs loc */ ck(sljit_emit_enter(C, W(1) ? SLJIT_ENTER_USE_VEX : 0, SLJIT_ARGS0V(), W(2) | SLJIT_ENTER_FLOAT(W(5)) | SLJIT_ENTER_VECTOR(W(4)), W(3), W(6))); }
  else return 0;
  return 1;
}

static void one(char *l) {
  char *t[24]; int n = 0; for (char *p = strtok(l, " "); p && n < 24; p = strtok(NULL, " ")) t[n++] = p;
  if (!n) return;
#define O(i) Op o##i = parse(t[i])
  const char *c = t[0];
  if (c[0] == 'v' && vector(t)) return;
  if (!strcmp(c, "label")) { labels[W(1)] = sljit_emit_label(C); obj(labels[W(1)]); }
  else if (!strcmp(c, "alabel")) { labels[W(1)] = sljit_emit_aligned_label(C, W(2), NULL); obj(labels[W(1)]); lalign[W(1)] = 1 << W(2); }
  else if (!strcmp(c, "rbuf")) { /* align n {label size} */
    struct sljit_read_only_buffer b[8]; int m = W(2), al = 1 << W(1);
    for (int k = 0; k < m; k++) { b[k].next = k + 1 < m ? b + k + 1 : NULL; b[k].size = W(4 + 2 * k); b[k].u.label = (void *)8; }
    struct sljit_label *l = sljit_emit_aligned_label(C, W(1), b); obj(l);
    for (int k = 0; k < m; k++) {
      int id = W(3 + 2 * k); labels[id] = l ? b[k].u.label : NULL; if (l && (!labels[id] || (k == 0 && labels[id] != l))) ck(-115);
      lalign[id] = al; while (b[k].size % al) al /= 2; } }
  else if (!strcmp(c, "nop")) ck(sljit_emit_op0(C, SLJIT_NOP));
  else if (!strcmp(c, "barrier")) ck(sljit_emit_op0(C, SLJIT_MEMORY_BARRIER));
  else if (!strcmp(c, "endbr")) ck(sljit_emit_op0(C, SLJIT_ENDBR));
  else if (!strcmp(c, "prefetch")) { O(2); ck(sljit_emit_op_src(C, SLJIT_PREFETCH_L1 + W(1), o2.o, o2.w)); }
  else if (!strcmp(c, "fill")) { for (int k = W(1); k > 0; k--) ck(sljit_emit_op0(C, SLJIT_NOP)); }
  else if (!strcmp(c, "cflags")) sljit_set_current_flags(C, (W(1) ? SLJIT_SET_Z : 0) | (W(2) >= 0 ? SLJIT_SET(W(2)) : 0));
  else if (!strcmp(c, "op0")) ck(sljit_emit_op0(C, opof(OPS, t[1], W(2))));
  else if (!strcmp(c, "op1")) { O(3); O(4); ck(sljit_emit_op1(C, opof(OPS, t[1], W(2)), o3.o, o3.w, o4.o, o4.w)); }
  else if (!strcmp(c, "op2")) { /* p w z v d a b */
    int op = opof(OPS, t[1], W(2)) | (W(3) ? SLJIT_SET_Z : 0) | (W(4) >= 0 ? SLJIT_SET(W(4)) : 0); O(6); O(7);
    if (t[5][0] == 'n') ck(sljit_emit_op2u(C, op, o6.o, o6.w, o7.o, o7.w));
    else { O(5); ck(sljit_emit_op2(C, op, o5.o, o5.w, o6.o, o6.w, o7.o, o7.w)); } }
  else if (!strcmp(c, "o2z")) { /* p w v nz j rw d a b */
    int op = opof(OPS, t[1], W(2)) | (W(3) >= 0 ? SLJIT_SET(W(3)) : 0) | (W(4) ? SLJIT_JUMP_IF_NON_ZERO : SLJIT_JUMP_IF_ZERO) | (W(6) ? SLJIT_REWRITABLE_JUMP : 0); O(7); O(8); O(9);
    jumps[W(5)] = sljit_emit_op2cmpz(C, op, o7.o, o7.w, o8.o, o8.w, o9.o, o9.w); obj(jumps[W(5)]); }
  else if (!strcmp(c, "op2r")) { O(2); O(3); O(4); ck(sljit_emit_op2r(C, SLJIT_MULADD | (W(1) == 4 ? SLJIT_32 : 0), o2.o, o3.o, o3.w, o4.o, o4.w)); }
  else if (!strcmp(c, "shi")) { /* p w nz d a b c */ O(4); O(5); O(6); O(7); ck(sljit_emit_shift_into(C, opof(OPS, t[1], W(2)) | (W(3) ? SLJIT_SHIFT_INTO_NON_ZERO : 0), o4.o, o5.o, o6.o, o7.o, o7.w)); }
  else if (!strcmp(c, "opf")) { /* p w z t d */ O(5); ck(sljit_emit_op_flags(C, opof(OPS, t[1], W(2)) | (W(3) ? SLJIT_SET_Z : 0), o5.o, o5.w, W(4))); }
  else if (!strcmp(c, "sel")) { /* w t d a b */ O(3); O(4); O(5); ck(sljit_emit_select(C, W(2) | (W(1) == 4 ? SLJIT_32 : 0), o3.o, o4.o, o4.w, o5.o)); }
  else if (!strcmp(c, "fsel")) { O(3); O(4); O(5); ck(sljit_emit_fselect(C, W(2) | (W(1) == 4 ? SLJIT_32 : 0), o3.o, o4.o, o4.w, o5.o)); }
  else if (!strcmp(c, "mem")) { /* p w st al d a */ O(5); O(6);
    int al = W(4) == 1 ? SLJIT_MEM_UNALIGNED : W(4) == 2 ? SLJIT_MEM_ALIGNED_16 : W(4) == 4 ? SLJIT_MEM_ALIGNED_32 : 0;
    ck(sljit_emit_mem(C, opof(OPS, t[1], W(2)) | (W(3) ? SLJIT_MEM_STORE : 0) | al, o5.o, o6.o, o6.w)); }
  else if (!strcmp(c, "fmem")) { /* w st al d a */ O(4); O(5);
    int al = W(3) == 1 ? SLJIT_MEM_UNALIGNED : W(3) == 2 ? SLJIT_MEM_ALIGNED_16 : W(3) == 4 ? SLJIT_MEM_ALIGNED_32 : 0;
    ck(sljit_emit_fmem(C, (W(1) == 4 ? SLJIT_MOV_F32 : SLJIT_MOV_F64) | (W(2) ? SLJIT_MEM_STORE : 0) | al, o4.o, o5.o, o5.w)); }
  else if (!strcmp(c, "atl")) { O(3); O(4); ck(sljit_emit_atomic_load(C, opof(OPS, t[1], W(2)), o3.o, o4.o)); }
  else if (!strcmp(c, "ats")) { /* p w v src mem tmp */ O(4); O(5); O(6); ck(sljit_emit_atomic_store(C, opof(OPS, t[1], W(2)) | (W(3) >= 0 ? SLJIT_SET_ATOMIC_STORED : 0), o4.o, o5.o, o6.o)); }
  else if (!strcmp(c, "cust")) { O(1); O(2); if (o1.o >= SLJIT_FR0 && t[1][0] == 'f') custom(1, o1.o, o2.o); else custom(0, o1.o, o2.o); }
  else if (!strcmp(c, "almem")) almem(W(1));
  else if (!strcmp(c, "gra")) { O(1); ck(sljit_emit_op_dst(C, SLJIT_GET_RETURN_ADDRESS, o1.o, o1.w)); }
  else if (!strcmp(c, "lb")) { O(2); ck(sljit_get_local_base(C, o2.o, o2.w, W(1))); }
  else if (!strcmp(c, "con")) { /* j p w d init */ O(4); int op = opof(OPS, t[2], W(3)); constop[W(1)] = op; consts[W(1)] = sljit_emit_const(C, op, o4.o, o4.w, (sljit_sw)strtoull(t[5], 0, 16)); obj(consts[W(1)]); }
  else if (!strcmp(c, "adr")) { /* j abs d */ O(3); jumps[W(1)] = sljit_emit_op_addr(C, W(2) == 2 ? SLJIT_ADD_ABS_ADDR : W(2) ? SLJIT_MOV_ABS_ADDR : SLJIT_MOV_ADDR, o3.o, o3.w); obj(jumps[W(1)]); }
  else if (!strcmp(c, "fop1")) { O(3); O(4); ck(sljit_emit_fop1(C, opof(FOPS1, t[1], W(2)), o3.o, o3.w, o4.o, o4.w)); }
  else if (!strcmp(c, "fcv")) { O(2); O(3); ck(sljit_emit_fop1(C, W(1) == 8 ? SLJIT_CONV_F64_FROM_F32 : SLJIT_CONV_F32_FROM_F64, o2.o, o2.w, o3.o, o3.w)); }
  else if (!strcmp(c, "fti")) { /* w n d a */ O(3); O(4); ck(sljit_emit_fop1(C, (W(2) == 8 ? SLJIT_CONV_SW_FROM_F64 : SLJIT_CONV_S32_FROM_F64) | (W(1) == 4 ? SLJIT_32 : 0), o3.o, o3.w, o4.o, o4.w)); }
  else if (!strcmp(c, "ffi")) { /* w n sg d a */ O(4); O(5);
    int op = W(3) ? (W(2) == 8 ? SLJIT_CONV_F64_FROM_SW : SLJIT_CONV_F64_FROM_S32) : (W(2) == 8 ? SLJIT_CONV_F64_FROM_UW : SLJIT_CONV_F64_FROM_U32);
    ck(sljit_emit_fop1(C, op | (W(1) == 4 ? SLJIT_32 : 0), o4.o, o4.w, o5.o, o5.w)); }
  else if (!strcmp(c, "fcp")) { /* w v a b */ O(3); O(4); ck(sljit_emit_fop1(C, (W(1) == 4 ? SLJIT_CMP_F32 : SLJIT_CMP_F64) | SLJIT_SET(W(2)), o3.o, o3.w, o4.o, o4.w)); }
  else if (!strcmp(c, "fop2")) { O(3); O(4); O(5);
    if (!strcmp(t[1], "copysign")) ck(sljit_emit_fop2r(C, W(2) == 4 ? SLJIT_COPYSIGN_F32 : SLJIT_COPYSIGN_F64, o3.o, o4.o, o4.w, o5.o, o5.w));
    else ck(sljit_emit_fop2(C, opof(FOPS2, t[1], W(2)), o3.o, o3.w, o4.o, o4.w, o5.o, o5.w)); }
  else if (!strcmp(c, "fset")) { O(2); union { uint64_t u; double d; uint32_t v[2]; float f[2]; } x; x.u = strtoull(t[3], 0, 16);
    if (W(1) == 4) ck(sljit_emit_fset32(C, o2.o, x.f[0])); else ck(sljit_emit_fset64(C, o2.o, x.d)); }
  else if (!strcmp(c, "fcy")) { /* st w freg reg */ O(3); O(4); ck(sljit_emit_fcopy(C, W(1) ? (W(2) == 4 ? SLJIT_COPY32_FROM_F32 : SLJIT_COPY_FROM_F64) : (W(2) == 4 ? SLJIT_COPY32_TO_F32 : SLJIT_COPY_TO_F64), o3.o, o4.o)); }
  else if (!strcmp(c, "jmp")) { /* t j rw */ jumps[W(2)] = sljit_emit_jump(C, W(1) | (W(3) ? SLJIT_REWRITABLE_JUMP : 0)); obj(jumps[W(2)]); }
  else if (!strcmp(c, "cmp")) { /* w t j rw a b */ O(5); O(6); jumps[W(3)] = sljit_emit_cmp(C, W(2) | (W(1) == 4 ? SLJIT_32 : 0) | (W(4) ? SLJIT_REWRITABLE_JUMP : 0), o5.o, o5.w, o6.o, o6.w); obj(jumps[W(3)]); }
  else if (!strcmp(c, "fcm")) { O(5); O(6); jumps[W(3)] = sljit_emit_fcmp(C, W(2) | (W(1) == 4 ? SLJIT_32 : 0) | (W(4) ? SLJIT_REWRITABLE_JUMP : 0), o5.o, o5.w, o6.o, o6.w); obj(jumps[W(3)]); }
  else if (!strcmp(c, "ijm")) { O(1); ck(sljit_emit_ijump(C, SLJIT_JUMP, o1.o, o1.w)); }
  else if (!strcmp(c, "fca")) { /* j rw */ jumps[W(1)] = sljit_emit_jump(C, SLJIT_FAST_CALL | (W(2) ? SLJIT_REWRITABLE_JUMP : 0)); obj(jumps[W(1)]); }
  else if (!strcmp(c, "fci")) { O(1); ck(sljit_emit_ijump(C, SLJIT_FAST_CALL, o1.o, o1.w)); }
  else if (!strcmp(c, "fen")) { O(1); ck(sljit_emit_op_dst(C, SLJIT_FAST_ENTER, o1.o, o1.w)); }
  else if (!strcmp(c, "frt")) { O(1); ck(sljit_emit_op_src(C, SLJIT_FAST_RETURN, o1.o, o1.w)); }
  else if (!strcmp(c, "call")) { /* j sig ra tail rw */
    jumps[W(1)] = sljit_emit_call(C, (W(3) ? SLJIT_CALL_REG_ARG : SLJIT_CALL) | (W(4) ? SLJIT_CALL_RETURN : 0) | (W(5) ? SLJIT_REWRITABLE_JUMP : 0), argtypes(t[2])); obj(jumps[W(1)]); }
  else if (!strcmp(c, "hcall")) { /* h sig tail how operand: how 0 icall imm, 1 icall operand, 2 call with target, 3 rewritable call with target */
    int ty = SLJIT_CALL | (W(3) ? SLJIT_CALL_RETURN : 0), at = argtypes(t[2]); sljit_sw f = (sljit_sw)hostfn(W(1));
    if (W(4) == 0) ck(sljit_emit_icall(C, ty, at, SLJIT_IMM, f));
    else if (W(4) == 1) { O(5); ck(sljit_emit_icall(C, ty, at, o5.o, o5.w)); }
    else { struct sljit_jump *j = sljit_emit_call(C, ty | (W(4) == 3 ? SLJIT_REWRITABLE_JUMP : 0), at); obj(j); if (j) sljit_set_target(j, (sljit_uw)f); } }
  else if (!strcmp(c, "hostaddr")) { O(2); ck(sljit_emit_op1(C, SLJIT_MOV, o2.o, o2.w, SLJIT_IMM, (sljit_sw)hostfn(W(1)))); }
  else if (!strcmp(c, "icall")) { /* sig ra tail operand */ O(4); ck(sljit_emit_icall(C, (W(2) ? SLJIT_CALL_REG_ARG : SLJIT_CALL) | (W(3) ? SLJIT_CALL_RETURN : 0), argtypes(t[1]), o4.o, o4.w)); }
  else if (!strcmp(c, "ent") || !strcmp(c, "ctx")) { /* ra keep sig s sv fs loc */
    int o = (W(1) ? SLJIT_ENTER_REG_ARG : 0) | (W(2) ? SLJIT_ENTER_KEEP(W(2)) : 0);
    ck((c[0] == 'e' ? sljit_emit_enter : sljit_set_context)(C, o, argtypes(t[3]), W(4) | SLJIT_ENTER_FLOAT(W(6)), W(5), W(7))); }
  else if (!strcmp(c, "retv")) ck(sljit_emit_return_void(C));
  else if (!strcmp(c, "ret")) { O(3); ck(sljit_emit_return(C, opof(OPS, t[1], W(2)), o3.o, o3.w)); }
  else if (!strcmp(c, "retf")) { O(2); ck(sljit_emit_return(C, W(1) == 4 ? SLJIT_MOV_F32 : SLJIT_MOV_F64, o2.o, o2.w)); }
  else if (!strcmp(c, "rto")) { O(1); ck(sljit_emit_return_to(C, o1.o, o1.w)); }
  else if (!strcmp(c, "dmp")) { /* s sv fs */
    for (int k = 1; k <= 13; k++) if (k <= W(1) || k > 13 - W(2)) ck(sljit_emit_op1(C, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)(reg[3].base + 8 * (k - 1)), k, 0));
    for (int k = 1; k <= W(3); k++) ck(sljit_emit_fop1(C, SLJIT_MOV_F64, SLJIT_MEM0(), (sljit_sw)(reg[3].base + 8 * (13 + k - 1)), SLJIT_FR0 + k - 1, 0)); }
  else if (!strcmp(c, "bind")) { int j = W(1); if (j < njt && jumps[j] && labels[jt[j]] && !bound[j]) { sljit_set_label(jumps[j], labels[jt[j]]); bound[j] = 1; } }
  else if (!strcmp(c, "ser")) serialize(W(1));
  else harness_fail("instruction", c);
}

static int setup(char *c, char *a) {
    if (!strcmp(c, "region")) { int k, len; unsigned long long b; char hex[9000]; sscanf(a, "%d %llx %d %s", &k, &b, &len, hex);
#ifndef FAILMODE
      uint8_t *pg = (uint8_t *)(b & ~4095ull); size_t sz = (((b + len + 4095) & ~4095ull) - (b & ~4095ull));
      if (mmap(pg, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != pg) harness_fail("mmap", a);
#endif
      reg[k].base = (uint8_t *)b; reg[k].len = len; unhex(hex, reg[k].init); return 1; }
    if (!strcmp(c, "rets")) { char *p = strtok(a, " "); while (p) { uint8_t b[8] = {0}; unhex(p, b); memcpy(&rets[nrets++], b, 8); p = strtok(NULL, " "); } return 1; }
    if (!strcmp(c, "host")) { int h; char s[16]; sscanf(a, "%d %15s", &h, s); strcpy(hsig[h], s[0] == '-' ? "" : s); return 1; }
    if (!strcmp(c, "jt")) { char *p = strtok(a, " "); while (p) { jt[njt++] = atoi(p); p = strtok(NULL, " "); } return 1; }
    return 0;
}

#ifndef FAILMODE
static void run_case(char **lines, int n) {
  void *code = NULL; sljit_sw eo = 0; clf = open_memstream(&clog, &clogn);
#ifdef OLDCPU
  lir_cpu_off = n * 7u % 31 + 1;
#endif
  C = sljit_create_compiler(NULL); if (!C) harness_fail("compiler", "");
#ifdef VERBOSE
  sljit_compiler_verbose(C, stderr);
#endif
#ifdef LIREXEC
  xplace = n % 3;
#endif
  for (int i = 0; i < n; i++) {
    char *l = lines[i], c[32]; int off = 0; if (sscanf(l, "%31s%n", c, &off) != 1) continue;
    char *a = l + off;
    if (setup(c, a)) continue;
    if (!strcmp(c, "gen")) {
      for (int k = 0; k < njt && !errcode; k++) { if (!jumps[k] || !labels[jt[k]]) harness_fail("unbound", l); if (!bound[k]) sljit_set_label(jumps[k], labels[jt[k]]); }
      if (!errcode) { code = sljit_generate_code(C, 0, NULL); if (!code) ck(sljit_get_compiler_error(C)); }
#ifdef LIREXEC
      if (!errcode) lirexec_check();
#endif
      if (errcode) { ev("{\"e\":\"err\",\"code\":%d}\n", errcode); fflush(out); return; }
      if (nvrc) { ev("{\"e\":\"vec\",\"avx2\":%d,\"rc\":[", sljit_has_cpu_feature(SLJIT_HAS_AVX2)); for (int k = 0; k < nvrc; k++) ev("%s%d", k ? "," : "", vrc[k]); ev("]}\n"); }
      eo = sljit_get_executable_offset(C);
      for (int k = 0; k < MAXN; k++) { if (jumps[k]) jaddr[k] = sljit_get_jump_addr(jumps[k]); if (labels[k]) { laddr[k] = sljit_get_label_addr(labels[k]); abaddr[k] = sljit_get_label_abs_addr(labels[k]); if (lalign[k] && laddr[k] % lalign[k]) ck(-117); } if (consts[k]) caddr[k] = sljit_get_const_addr(consts[k]); }
      almem_check(); if (errcode) { ev("{\"e\":\"err\",\"code\":%d}\n", errcode); fflush(out); return; }
      sljit_free_compiler(C); C = NULL; continue; }
    if (!strcmp(c, "setconst")) { int j; unsigned long long v; sscanf(a, "%d %llx", &j, &v); sljit_set_const(caddr[j], constop[j], (sljit_sw)v, eo); continue; }
    if (!strcmp(c, "setbuf")) { int j, o, n; char h[400]; uint8_t v[200]; sscanf(a, "%d %d %399s", &j, &o, h); n = unhex(h, v);
      memcpy(sljit_read_only_buffer_start_writing(abaddr[j] + o, n, eo), v, n); sljit_read_only_buffer_end_writing(abaddr[j] + o, n, eo); continue; }
    if (!strcmp(c, "setjump")) { int j, t; sscanf(a, "%d %d", &j, &t); sljit_set_jump_addr(jaddr[j], laddr[t], eo); continue; }
    if (!strcmp(c, "run")) { /* label types values */
      char *t[8]; int m = 0; for (char *p = strtok(a, " "); p && m < 8; p = strtok(NULL, " ")) t[m++] = p;
      rx.fn = (void *)laddr[atoi(t[0])]; int ni = 0, nf = 0;
      for (int k = 0; k < 4; k++) rx.i[k] = 0xdeadbeefcafe0000ull + k, rx.f[k] = 0x7fe123456789abcdull + k;
      for (int k = 2; k < m; k++) { uint8_t b[8] = {0}; uint64_t v; unhex(t[k], b); memcpy(&v, b, 8); char y = t[1][k - 2]; if (y == 'd' || y == 'f') rx.f[nf++] = v; else rx.i[ni++] = v; }
      for (int k = 1; k <= 3; k++) memcpy(reg[k].base, reg[k].init, reg[k].len);
      ncalls = 0; rewind(clf);
      enter_code();
      fputc(0, clf); fflush(clf);
      ev("{\"e\":\"run\",\"cs\":%d,\"calls\":[%s],\"r\":\"", rx.bad ? (int)(1000 + rx.bad) : 1, clog);
      for (int k = 0; k < 8; k++) ev("%02x", (int)(rx.rax >> (8 * k)) & 255);
      ev("\",\"f\":\""); for (int k = 0; k < 8; k++) ev("%02x", (int)(rx.xmm0 >> (8 * k)) & 255);
      ev("\",\"mem\":["); for (int k = 1; k <= 3; k++) { ev("%s\"", k > 1 ? "," : ""); for (int q = 0; q < reg[k].len; q++) ev("%02x", reg[k].base[q]); ev("\""); }
      ev("]}\n"); fflush(out); continue; }
    if (errcode) continue;
#ifdef VERBOSE
    char *copy = strdup(l); fprintf(stderr, "## %s\n", copy);
#endif
    one(l);
#ifdef VERBOSE
    if (errcode) fprintf(stderr, "ERROR %d at %s\n", errcode, copy);
#endif
  }
  if (code) sljit_free_code(code, NULL);
}
#endif
int main(int argc, char **argv) { return runner_main(argc, argv); }
