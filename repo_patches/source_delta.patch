From c4df1b62527461112bb91236fd3ade0158638b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 01/66] fix: i64 clz/ctz/popcnt write the whole 64-bit result

---
 pwart/extfunc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d7bce97..5a1c4bc 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -25,9 +25,9 @@ static void insn_i64clz(void *fp){
       x >>= 4, c -= 4;
     if (x >> 2)
       x >>= 2, c -= 2;
-    *(uint32_t *)fp = c - (x >> 1);
+    *(uint64_t *)fp = c - (x >> 1);
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64ctz(void *fp){
@@ -46,9 +46,9 @@ static void insn_i64ctz(void *fp){
       x <<= 2, c -= 2;
     if (x << 1)
       c -= 1;
-    *(uint32_t *)fp = c;
+    *(uint64_t *)fp = c;
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64popcount(void *fp){
@@ -56,7 +56,7 @@ static void insn_i64popcount(void *fp){
   x -= (x & 0xaaaaaaaaaaaaaaaaull) >> 1;
   x = (x & 0x3333333333333333ull) + ((x & 0xccccccccccccccccull) >> 2);
   x = ((x * 0x11) & 0xf0f0f0f0f0f0f0f0ull) >> 4;
-  *(uint32_t *)fp = (uint32_t)((x * 0x0101010101010101ull) >> 56);
+  *(uint64_t *)fp = ((x * 0x0101010101010101ull) >> 56);
 }
 
 static void insn_i32clz(void *fp){
-- 
2.43.0


From d372e8604638511b82cde8034da66e7f7ba2f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 02/66] fix: i64.extend16_s and i64.extend32_s extend from 16
 and 32 bits

---
 pwart/opgen_num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 5cb9b74..7c43ed0 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -1294,7 +1294,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr2, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S16, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
@@ -1307,7 +1307,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr1, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S32, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
-- 
2.43.0


From ad81017491952ad7e02d6a95a3cbdd62f6acbaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 03/66] fix: copysign takes the magnitude of the first operand
 and the sign of the second

---
 pwart/extfunc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 5a1c4bc..0b56465 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -228,7 +228,7 @@ static void insn_f32min(float *fp){
   *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
 }
 static void insn_f32copysign(float *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  *fp = copysignf(*fp, *(fp + 1));
 }
 
 static void insn_f64max(double *fp){
@@ -238,7 +238,7 @@ static void insn_f64min(double *fp){
   *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
 }
 static void insn_f64copysign(double *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  *fp = copysign(*fp, *(fp + 1));
 }
 
 static void insn_i32truncf32u(uint32_t *fp){
-- 
2.43.0


From b261ba9e2dddef775338cecde0d1549a92f6568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 04/66] fix: float min/max propagate NaN and order -0 below +0

---
 pwart/extfunc.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 0b56465..14b60a3 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -222,20 +222,44 @@ static void insn_i64shrs(int64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 static void insn_i64shru(uint64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 
 static void insn_f32max(float *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  float a = *fp, b = *(fp + 1);
+  if (isnan(a) || isnan(b))
+    *fp = a + b;
+  else if (a == b)
+    *fp = signbit(a) ? b : a; // -0 < +0
+  else
+    *fp = a > b ? a : b;
 }
 static void insn_f32min(float *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  float a = *fp, b = *(fp + 1);
+  if (isnan(a) || isnan(b))
+    *fp = a + b;
+  else if (a == b)
+    *fp = signbit(a) ? a : b; // -0 < +0
+  else
+    *fp = a < b ? a : b;
 }
 static void insn_f32copysign(float *fp){
   *fp = copysignf(*fp, *(fp + 1));
 }
 
 static void insn_f64max(double *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  double a = *fp, b = *(fp + 1);
+  if (isnan(a) || isnan(b))
+    *fp = a + b;
+  else if (a == b)
+    *fp = signbit(a) ? b : a; // -0 < +0
+  else
+    *fp = a > b ? a : b;
 }
 static void insn_f64min(double *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  double a = *fp, b = *(fp + 1);
+  if (isnan(a) || isnan(b))
+    *fp = a + b;
+  else if (a == b)
+    *fp = signbit(a) ? a : b; // -0 < +0
+  else
+    *fp = a < b ? a : b;
 }
 static void insn_f64copysign(double *fp){
   *fp = copysign(*fp, *(fp + 1));
-- 
2.43.0


From e1510708b40b33f042702f0eb4271575342bf2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 05/66] fix: sign-extend LEB128 values of 31 bits and more

---
 pwart/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/util.c b/pwart/util.c
index 2bcd459..9ad2e57 100644
--- a/pwart/util.c
+++ b/pwart/util.c
@@ -89,7 +89,7 @@ static uint64_t read_LEB_(uint8_t *bytes, uint32_t *pos, uint32_t maxbits, int s
     }
     if (sign && (shift < maxbits) && (byte & 0x40)) {
         // Sign extend
-        result |= - (1 << shift);
+        result |= -((uint64_t)1 << shift);
     }
     return result;
 }
-- 
2.43.0


From 612b35b7d1db9ff86f677f0e182aa38d72fb50e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 06/66] fix: rem_s of the minimum value by -1 is 0 instead of a
 crash

---
 pwart/opgen_num.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 7c43ed0..6c60e5b 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -513,6 +513,10 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
         pwart_EmitLoadReg(m, sv2, SLJIT_R1);
       }
       a = SLJIT_R1;
+      // x rem -1 is 0 as x rem 1 is, but the division instruction may overflow.
+      jump = sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL | SLJIT_32, SLJIT_R1, 0, SLJIT_IMM, -1);
+      sljit_emit_op1(m->jitc, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, 1);
+      sljit_set_label(jump, sljit_emit_label(m->jitc));
       sljit_emit_op0(m->jitc, SLJIT_DIVMOD_S32);
     } break;
     case 0x70: // i32.rem_u
@@ -657,6 +661,10 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
           pwart_EmitLoadReg(m, sv2, SLJIT_R1);
         }
         a = SLJIT_R1;
+        // x rem -1 is 0 as x rem 1 is, but the division instruction may overflow.
+        jump = sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL, SLJIT_R1, 0, SLJIT_IMM, -1);
+        sljit_emit_op1(m->jitc, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, 1);
+        sljit_set_label(jump, sljit_emit_label(m->jitc));
         sljit_emit_op0(m->jitc, SLJIT_DIVMOD_SW);
       } break;
       case 0x82: // i64.rem_u
-- 
2.43.0


From e70c17369c1a02c52b6ed8e69af7a1015efdcc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 07/66] fix: memory.size, table.size and ref.func load their
 value at once

The value stayed a memory reference through a scratch register: a
memory.grow before its use changed it, and div/rem took the address for
the value.
---
 pwart/opgen_mem.c  | 1 +
 pwart/opgen_misc.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 629d9ed..22ab65b 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -144,6 +144,7 @@ static void opgen_GenCurrentMemory(ModuleCompiler *m,uint32_t index) {
   sv->jit_type = SVT_GENERAL;
   sv->val.op = SLJIT_MEM1(a);
   sv->val.opw = 0;
+  pwart_EmitStackValueLoadReg(m, sv);
 }
 static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
   opgen_GenI32Const(m,index);
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index e7c4cb3..7edc3f4 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -40,6 +40,7 @@ static void opgen_GenRefFunc(ModuleCompiler *m, int32_t fidx) {
   sv->jit_type = SVT_GENERAL;
   sv->val.op = SLJIT_MEM1(a);
   sv->val.opw = 0;
+  pwart_EmitStackValueLoadReg(m, sv);
 }
 
 static void opgen_GenTableSize(ModuleCompiler *m,int tabidx){
@@ -52,6 +53,7 @@ static void opgen_GenTableSize(ModuleCompiler *m,int tabidx){
   sv->jit_type = SVT_GENERAL;
   sv->val.op = SLJIT_MEM1(r);
   sv->val.opw = 0;
+  pwart_EmitStackValueLoadReg(m, sv);
 }
 
 static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
-- 
2.43.0


From 39164123731d6c174ae5a4629b92ebaacaec2336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 08/66] fix: zero-initialise all 8 bytes of f64 locals

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 5be0754..358e6d1 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -758,7 +758,7 @@ static char* pwart_EmitFuncEnter(ModuleCompiler *m) {
         opgen_GenF32Const(m,(uint8_t *)&f32zero);
         break;
         case WVT_F64:
-        opgen_GenF32Const(m,(uint8_t *)&f64zero);
+        opgen_GenF64Const(m,(uint8_t *)&f64zero);
         break;
         case WVT_I32:
         opgen_GenI32Const(m,0);
-- 
2.43.0


From 89936c853d95983cab79a33865bc11283865bb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 09/66] fix: read the memory index of a memarg before its
 offset when scanning a function

---
 pwart/wagen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 2a0a59f..f05d7ac 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -224,8 +224,8 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case 0x28:  case 0x29:  case 0x2a:  case 0x2b:  case 0x2c:  case 0x2d:  case 0x2e:  case 0x2f:  case 0x30:  case 0x31:  case 0x32:  case 0x33:  case 0x34:  case 0x35:  case 0x36:  case 0x37:  case 0x38:  case 0x39:  case 0x3a:  case 0x3b:  case 0x3c:  case 0x3d:  case 0x3e: 
       midx=0;
       arg = read_LEB(m->bytes, &m->pc, 32);
-      offset = read_LEB(m->bytes, &m->pc, 32);
       if(arg&0x40)midx=read_LEB(m->bytes, &m->pc, 32);
+      offset = read_LEB(m->bytes, &m->pc, 32);
       if(m->cached_midx<0 && (*dynarr_get(m->context->memories,Memory *,midx))->bytes!=NULL){
         m->mem_base_local = -2;
         m->cached_midx=midx;
-- 
2.43.0


From e8c13606dd955fb713eee0e14725f88f7b2ed1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 10/66] fix: accept the typed select instruction

---
 pwart/opgen_ctl.c | 3 ++-
 pwart/wagen.c     | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index e5325c4..3694c20 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -372,7 +372,8 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
     opgen_GenDrop(m);
     break;
   case WASMOPC_select_t:                     // select t
-    m->pc++;
+    count = read_LEB(bytes, &m->pc, 32);
+    m->pc += count;
   case WASMOPC_select:                     // select
     opgen_GenSelect(m);
     break;
diff --git a/pwart/wagen.c b/pwart/wagen.c
index f05d7ac..a1a36ea 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -48,7 +48,8 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     read_LEB(bytes, pos, 1);
     break;
   case 0x1c: // select t
-    read_LEB(bytes, pos, 32);
+    count = read_LEB(bytes, pos, 32);
+    *pos += count;
     break;
   // varint64
   case 0x42: // i64.const
@@ -334,7 +335,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
       pwart_EmitStackValueLoadReg(m, &m->stack[m->sp]);
     }
 
-    if (opcode >= 0 && opcode <= 0x1b) {
+    if (opcode >= 0 && opcode <= WASMOPC_select_t) {
       ReturnIfErr(opgen_GenCtlOp(m, opcode));
     } else if (opcode <= 0x44) {
       ReturnIfErr(opgen_GenMemOp(m, opcode));
-- 
2.43.0


From 1ff37cd27d7fe5b167343abe841784a74e833810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:58 +0000
Subject: [PATCH 11/66] fix: carry block results over branches, skip dead code,
 keep br_table's index local

A branch out of a block left its result wherever the operand stack had it, so
surplus operands below the result shifted it, a branch to the function block
fell through into the code behind it, code after br/return was compiled with a
wrong operand stack, and br_table counted down the local it was given.
---
 pwart/def.h       |   2 +
 pwart/opgen_ctl.c | 182 +++++++++++++++++++++++++++++-----------------
 pwart/wagen.c     |  24 +++++-
 3 files changed, 139 insertions(+), 69 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index f0cfee0..ecc707c 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -66,6 +66,8 @@ typedef struct Block {
     uint8_t    block_type;    // 0x00: function, 0x01: init_exp
                               // 0x02: block, 0x03: loop, 0x04: if
     int8_t     stack_offset;  //stack offset after block end.
+    uint8_t    result_type;   //type of the result, if stack_offset is 1.
+    uint16_t   result_offset; //frame offset where a branch to this block leaves the result.
     int16_t    saved_sp;      //sp when enter block.
     //Type      *type;           params/results type
     struct sljit_jump *else_jump;     // if block only
diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 3694c20..9119543 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -7,39 +7,80 @@
 #include "opgen_utils.c"
 
 static void opgen_GenUnreachable(ModuleCompiler *m) {
-  //just do nothing now.
+  //no trap now, just leave the function.
+  sljit_emit_return_void(m->jitc);
+  m->block_returned=1;
+}
+
+//set up the place of the block result. Call it after m->sp is the saved_sp of the block.
+static void opgen_SetBlockResult(ModuleCompiler *m,Block *block,int stackOffset,int resultType) {
+  block->stack_offset=stackOffset;
+  block->saved_sp=m->sp;
+  block->result_type=resultType;
+  if(stackOffset>0){
+    block->result_offset=stackvalue_Push(m,resultType)->frame_offset;
+    m->sp--;
+  }
+}
+
+//if the block result on stack top is not in the place where the code behind the block expects it.
+static int opgen_BlockResultMisplaced(ModuleCompiler *m,Block *block){
+  StackValue *sv=m->stack+m->sp;
+  return block->stack_offset>0 && !(sv->jit_type==SVT_GENERAL && 
+    sv->val.op==SLJIT_MEM1(SLJIT_S0) && sv->val.opw==block->result_offset);
+}
+
+//if a branch to the block need do something before the jump.
+static int opgen_BranchNeedPrologue(ModuleCompiler *m,Block *block){
+  return block->block_type==0x00 || (block->block_type!=0x3 && opgen_BlockResultMisplaced(m,block));
+}
+
+//jump to the block with the result on stack top. 
+static void opgen_EmitBranch(ModuleCompiler *m,Block *block) {
+  if(block->block_type==0x00){
+    //function
+    pwart_EmitFuncReturn(m);
+    return;
+  }
+  if(opgen_BranchNeedPrologue(m,block)){
+    pwart_EmitStoreStackValue(m,m->stack+m->sp,SLJIT_MEM1(SLJIT_S0),block->result_offset);
+  }
+  if (block->br_label != NULL) {
+    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
+  } else {
+    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
+        sljit_emit_jump(m->jitc, SLJIT_JUMP);
+  }
 }
 
-static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenBlock(ModuleCompiler *m,int stackOffset,int resultType) {
   Block *block;
   pwart_EmitSaveStackAll(m);
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x2;
   dynarr_init(&block->br_jump, sizeof(struct sljit_jump *));
   block->else_jump = NULL;
-  block->stack_offset=stackOffset;
-  block->saved_sp=m->sp;
+  opgen_SetBlockResult(m,block,stackOffset,resultType);
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
 }
 /* blktype 0x40 indicating the empty type. */
-static void opgen_GenLoop(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenLoop(ModuleCompiler *m,int stackOffset,int resultType) {
   Block *block;
   pwart_EmitSaveStackAll(m);
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x3;
   block->br_label = sljit_emit_label(m->jitc);
-  block->stack_offset=stackOffset;
-  block->saved_sp=m->sp;
+  opgen_SetBlockResult(m,block,stackOffset,resultType);
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
 }
 /* blktype 0x40 indicating the empty type. */
-static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenIf(ModuleCompiler *m,int stackOffset,int resultType) {
   Block *block;
   StackValue *sv;
   struct sljit_jump *jump;
@@ -68,17 +109,16 @@ static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
   }
   block->else_jump = jump;
   m->sp--;
-  block->stack_offset=stackOffset;
-  block->saved_sp=m->sp;
-  
+  opgen_SetBlockResult(m,block,stackOffset,resultType);
 }
 
 static void opgen_GenElse(ModuleCompiler *m) {
   Block *block;
-  pwart_EmitSaveStackAll(m);
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1);
-  *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-      sljit_emit_jump(m->jitc, SLJIT_JUMP);
+  if(!m->block_returned){
+    opgen_EmitBranch(m,block);
+  }
+  m->block_returned=0;
   sljit_set_label(block->else_jump, sljit_emit_label(m->jitc));
   block->else_jump = NULL;
   m->sp=block->saved_sp;
@@ -92,8 +132,11 @@ static void opgen_GenEnd(ModuleCompiler *m) {
   struct sljit_jump *sj;
   Block *block = dynarr_pop_type(&m->blocks, Block);
   int a;
+  StackValue *sv;
   if (block->block_type == 0x2 || block->block_type == 0x4) {
-    pwart_EmitSaveStackAll(m);
+    if(!m->block_returned && opgen_BlockResultMisplaced(m,block)){
+      pwart_EmitStoreStackValue(m,m->stack+m->sp,SLJIT_MEM1(SLJIT_S0),block->result_offset);
+    }
     // if block
     block->br_label = sljit_emit_label(m->jitc);
     for (a = 0; a < block->br_jump->len; a++) {
@@ -111,7 +154,16 @@ static void opgen_GenEnd(ModuleCompiler *m) {
     }
     m->eof = 1;
   } 
-  m->sp=block->saved_sp+block->stack_offset;
+  if(block->block_type == 0x3 && !m->block_returned){
+    m->sp=block->saved_sp+block->stack_offset;
+  }else{
+    m->sp=block->saved_sp;
+    if(block->stack_offset>0){
+      sv=stackvalue_Push(m,block->result_type);
+      sv->val.op=SLJIT_MEM1(SLJIT_S0);
+      sv->val.opw=sv->frame_offset;
+    }
+  }
   if (block->br_jump != NULL) {
     dynarr_free(&block->br_jump);
   }
@@ -124,26 +176,21 @@ static void opgen_GenEnd(ModuleCompiler *m) {
 
 static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
   Block *block;
-  pwart_EmitSaveStackAll(m);
   #if PWART_DEBUG_RUNTIME_PROBE
+  pwart_EmitSaveStackAll(m);
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
-  if(block->block_type==0x2 || block->block_type==0x4){
-    m->block_returned=1;
-  }
+  opgen_EmitBranch(m,block);
+  m->block_returned=1;
 }
 
 static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   StackValue *sv;
   Block *block;
+  struct sljit_jump *jump;
+  int prologue;
   StackValue *stack = m->stack;
   sv = &stack[m->sp];
   // stack top will be remove soon. Don't save it here.
@@ -156,36 +203,39 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
+  m->sp--;
+  prologue = opgen_BranchNeedPrologue(m,block);
+  m->sp++;
+  //if prologue needed, inverse the condition and jump over the branch.
   if (sv->jit_type == SVT_CMP) {
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_jump(m->jitc, sv->val.cmp.flag),
-                      block->br_label);
-    } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-          sljit_emit_jump(m->jitc, sv->val.cmp.flag);
-    }
+    jump = sljit_emit_jump(m->jitc, prologue ? sv->val.cmp.flag^0x1 : sv->val.cmp.flag);
   } else if (sv->jit_type == SVT_GENERAL) {
     // sljit_emit_cmp always use machine word length, So load to register first.
     pwart_EmitStackValueLoadReg(m, sv);
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL, sv->val.op,
-                                     sv->val.opw, SLJIT_IMM, 0),
-                      block->br_label);
-    } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) = sljit_emit_cmp(
-          m->jitc, SLJIT_NOT_EQUAL, sv->val.op, sv->val.opw, SLJIT_IMM, 0);
-    }
+    jump = sljit_emit_cmp(m->jitc, prologue ? SLJIT_EQUAL : SLJIT_NOT_EQUAL, sv->val.op,
+                          sv->val.opw, SLJIT_IMM, 0);
   } else {
     SLJIT_UNREACHABLE();
   }
   m->sp--;
+  if(prologue){
+    opgen_EmitBranch(m,block);
+    sljit_set_label(jump, sljit_emit_label(m->jitc));
+  } else if (block->br_label != NULL) {
+    sljit_set_label(jump, block->br_label);
+  } else {
+    *dynarr_push_type(&block->br_jump, struct sljit_jump *) = jump;
+  }
 }
 
 static void opgen_GenBrTable(ModuleCompiler *m) {
   int32_t depth;
-  int a, count;
+  int a, count, prologue;
+  sljit_s32 op;
+  sljit_sw opw;
   Block *block;
   StackValue *sv;
+  struct sljit_jump *jump;
   sv=m->stack+m->sp;
   count = m->br_table->len-1;
   for (int i = 0; i < m->sp; i++) {
@@ -197,34 +247,31 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   pwart_EmitStackValueLoadReg(m, sv);
+  op=sv->val.op;
+  opw=sv->val.opw;
+  m->sp--;
   for (a = 0; a < count; a++) {
     depth = *dynarr_get(m->br_table, uint32_t, a);
     block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-    if (a == 0) {
-      sljit_emit_op2u(m->jitc, SLJIT_AND | SLJIT_SET_Z, sv->val.op, sv->val.opw,
-                      sv->val.op, sv->val.opw);
-    } else {
-      sljit_emit_op2(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op,
-                     sv->val.opw, sv->val.op, sv->val.opw, SLJIT_IMM, 1);
-    }
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_ZERO), block->br_label);
+    prologue = opgen_BranchNeedPrologue(m,block);
+    //the index may be a local variable, don't modify it.
+    jump = sljit_emit_cmp(m->jitc, (prologue ? SLJIT_NOT_EQUAL : SLJIT_EQUAL) | SLJIT_32,
+                          op, opw, SLJIT_IMM, a);
+    if(prologue){
+      opgen_EmitBranch(m,block);
+      sljit_set_label(jump, sljit_emit_label(m->jitc));
+    } else if (block->br_label != NULL) {
+      sljit_set_label(jump, block->br_label);
     } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-          sljit_emit_jump(m->jitc, SLJIT_ZERO);
+      *dynarr_push_type(&block->br_jump, struct sljit_jump *) = jump;
     }
   }
 
   // default
   depth = *dynarr_get(m->br_table, uint32_t, count);
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
-  m->sp--;
+  opgen_EmitBranch(m,block);
+  m->block_returned=1;
 }
 
 static void opgen_GenReturn(ModuleCompiler *m) {
@@ -292,7 +339,8 @@ static void opgen_GenSelect(ModuleCompiler *m) {
   sljit_set_label(jump, sljit_emit_label(m->jitc));
 }
 
-static char *opgen_ParseBlockStackOffset(ModuleCompiler *m,int *stackOffset){
+static char *opgen_ParseBlockStackOffset(ModuleCompiler *m,int *stackOffset,int *resultType){
+  *resultType=*(m->bytes+m->pc);
   if(*(m->bytes+m->pc)==0x40){
     *stackOffset=0;
     m->pc++;
@@ -316,16 +364,16 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
   case 0x01: // nop
     break;
   case 0x02: // block
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
-    opgen_GenBlock(m,count);
+    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count,&blktype));
+    opgen_GenBlock(m,count,blktype);
     break;
   case 0x03: // loop
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
-    opgen_GenLoop(m,count);
+    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count,&blktype));
+    opgen_GenLoop(m,count,blktype);
     break;
   case 0x04: // if
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
-    opgen_GenIf(m,count);
+    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count,&blktype));
+    opgen_GenIf(m,count,blktype);
     break;
   case 0x05: // else
     opgen_GenElse(m);
diff --git a/pwart/wagen.c b/pwart/wagen.c
index a1a36ea..c941c0e 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -21,7 +21,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   // varuint32, varint32
   case 0x0c: case 0x0d: // br, br_if
-  case 0x10:          // call
+  case 0x10: case WASMOPC_return_call: // call
     read_LEB(bytes, pos, 32);
     break;
   case 0x20: //local.get
@@ -35,6 +35,8 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   case 0x23: //global.get
   case 0x24: //global.set
+  case 0x25: //table.get
+  case 0x26: //table.set
   case 0xd0: //ref.null
   case 0xd2: //ref.func
     read_LEB(bytes, pos, 32);
@@ -43,7 +45,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     read_LEB(bytes, pos, 32);
     break;
   // varuint32 + varuint1
-  case 0x11: // call_indirect
+  case 0x11: case WASMOPC_return_call_indirect: // call_indirect
     read_LEB(bytes, pos, 32);
     read_LEB(bytes, pos, 1);
     break;
@@ -288,6 +290,21 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
   return NULL;
 }
 
+//skip the unreachable code behind br, return etc., up to the else or end of current block.
+static void pwart_SkipUnreachable(ModuleCompiler *m) {
+  int depth=0;
+  while(m->pc < m->byte_count){
+    int opcode=m->bytes[m->pc];
+    if(depth==0 && (opcode==0x05 || opcode==WASMOPC_end))return;
+    if(opcode==0x02 || opcode==0x03 || opcode==WASMOPC_if)depth++;
+    if(opcode==WASMOPC_end)depth--;
+    wasm_SkipImmediates(m->bytes, &m->pc);
+    #if DEBUG_BUILD
+    m->insnCnt--;
+    #endif
+  }
+}
+
 /*
 r0,r1,r2 is scratch registers(at least three registers are required.).
 s0(arg0) contains stack frame pointer.
@@ -318,6 +335,9 @@ static char *pwart_GenCode(ModuleCompiler *m) {
   m->block_returned=0;
 
   while (!m->eof && m->pc < m->byte_count) {
+    if(m->block_returned){
+      pwart_SkipUnreachable(m);
+    }
     opcode = m->bytes[m->pc];
     cur_pc = m->pc;
     m->pc += 1;
-- 
2.43.0


From 8d47cdc46002c518c7186f1d73c6e0d2115b429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:03 +0000
Subject: [PATCH 12/66] fix: tail calls keep arguments apart from the
 parameters they overwrite

Arguments were copied over the caller's parameters while later arguments still
had to be read from there, were aligned although the frame layout was packed,
were left in place when PWART_STACK_FLAGS_AUTO_ALIGN moved the frame, and a
tail call of an inlined builtin did not return.
---
 pwart/opgen_ctl.c   |  2 ++
 pwart/opgen_utils.c | 39 ++++++++++++++++++++++-----------------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 9119543..25fd69d 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -295,6 +295,8 @@ static void opgen_GenCall(ModuleCompiler *m, int32_t fidx, int callReturn) {
     sljit_emit_op1(m->jitc, SLJIT_MOV, a, 0, SLJIT_IMM,(sljit_uw)(m->context->funcentries+fidx));
     type = dynarr_get(m->types, Type, fn->tidx);
     pwart_EmitCallFunc2(m, type, SLJIT_MEM1(a), 0,callReturn);
+  }else if(callReturn){
+    opgen_GenReturn(m);
   }
 }
 
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 358e6d1..2f5ac6b 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -381,7 +381,28 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
   }
   sv = m->stack+m->sp + 1; // first argument
 
-  if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
+  if(callReturn){
+    //tail call, move arguments to the head of current frame.
+    m->sp+=len;
+    for(a=0;a<len;a++){
+      //arguments may be read from the head of the frame, so save them behind it first.
+      pwart_EmitSaveStack(m,&m->stack[m->sp-a]);
+    }
+    m->sp-=len;
+    b=0;
+    for(a=0;a<len;a++){
+      sv=m->stack+m->sp+1+a;
+      if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+        sv->frame_offset=stackvalue_GetAlignedOffset(sv,b,&b);
+      }else{
+        sv->frame_offset=b;
+        b+=stackvalue_GetSizeAndAlign(sv,NULL);
+      }
+      pwart_EmitSaveStack(m,sv);
+    }
+    sv=m->stack+m->sp+1; // first argument
+    sv->frame_offset=0;
+  }else if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
     //XXX: move stack value to align frame to 8 ,we should avoid this happen.
     sv->frame_offset+=4;
     if(len>0){
@@ -401,22 +422,6 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
       m->sp-=len;
       sv=m->stack+m->sp+1; // first argument
     }
-  }else if(callReturn){
-    //tail call
-    sv->frame_offset=0;
-    if(len>0){
-      pwart_EmitSaveStack(m,sv);
-      b=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
-      m->sp+=len;
-      for(a=1;a<len;a++){
-        sv++;
-        sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
-        pwart_EmitSaveStack(m,sv);
-      }
-      //move sp back
-      m->sp-=len;
-      sv=m->stack+m->sp+1; // first argument
-    }
   }else{
     for(i=len;i>0;i--){
       m->sp++;
-- 
2.43.0


From b424b4419e1bdbdcfba148347cf227275b955b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 13/66] fix: allocate the maximum of a memory that never moves
 and the initial size of one that does

---
 pwart/modparser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index f1f40c3..0753f76 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -329,9 +329,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 parse_memory_type(m, &pos,memory);
                 //XXX: custom memory creator?
                 if(memory->fixed){
-                    memory->bytes = wa_calloc(memory->initial*PAGE_SIZE);
+                    memory->bytes = wa_calloc((size_t)memory->maximum*PAGE_SIZE);
                 }else{
-                    memory->bytes = wa_calloc(memory->maximum*PAGE_SIZE);
+                    memory->bytes = wa_calloc((size_t)memory->initial*PAGE_SIZE);
+                }
+                if(memory->bytes==NULL){
+                    return "out of memory";
                 }
                 *dynarr_push_type(&m->context->memories,Memory *)=memory;
             }
-- 
2.43.0


From 2a043bbde70c00b583db5f14326ced8352fbb1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:53 +0000
Subject: [PATCH 14/66] fix: memory.grow refuses deltas whose sum wraps and
 survives a failed reallocation

---
 pwart/extfunc.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 14b60a3..af80f89 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -316,17 +316,23 @@ static void insn_memorygrow(void *fp){
   uint32_t index=pwart_rstack_get_i32(&sp); // memory index
   RuntimeContext *m=pwart_rstack_get_ref(&sp);
   Memory *mem=*dynarr_get(m->memories,Memory *,index);
-  int32_t prev_pages = mem->pages;
-  if (delta + prev_pages > mem->maximum) {
+  uint32_t prev_pages = mem->pages;
+  if (prev_pages > mem->maximum || delta > mem->maximum - prev_pages) {
     sp=fp;
     pwart_rstack_put_i32(&sp,-1);
     return;
   }
-  mem->pages += delta;
-  if(!mem->fixed){
-    mem->bytes = wa_realloc(mem->bytes, mem->pages * PAGE_SIZE);
-    memset(mem->bytes+prev_pages*PAGE_SIZE,0,delta*PAGE_SIZE);
+  if(!mem->fixed && delta > 0){
+    uint8_t *bytes = wa_realloc(mem->bytes, ((size_t)prev_pages + delta) * PAGE_SIZE);
+    if(bytes==NULL){
+      sp=fp;
+      pwart_rstack_put_i32(&sp,-1);
+      return;
+    }
+    mem->bytes = bytes;
+    memset(bytes+(size_t)prev_pages*PAGE_SIZE,0,(size_t)delta*PAGE_SIZE);
   }
+  mem->pages += delta;
   sp=fp;
   pwart_rstack_put_i32(&sp,prev_pages);
   return;
-- 
2.43.0


From 204cda4e25ed33540de0dfefa60ba65609a9aea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 15/66] fix: a result that is still in a parameter's place
 survives the results written before it

---
 pwart/opgen_utils.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 2f5ac6b..7647cec 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -478,16 +478,48 @@ static char *pwart_EmitCallFunc(ModuleCompiler *m, Type *type, sljit_s32 memreg,
 }
 
 static char *pwart_EmitFuncReturn(ModuleCompiler *m) {
-  int idx, len, off;
-  StackValue *sv;
+  int idx, len, off, tmp;
+  StackValue *sv,sv2;
   off = 0;
+  tmp = 0;
   len = strlen((const char *)m->function_type->results);
   if(m->sp+1<len){
     /* maybe unreachable code, Do nothing */
     return NULL;
   }
+  // is any result read from where an earlier result is written to?
   for (idx = 0; idx < len; idx++) {
     sv = &m->stack[m->sp - len + idx + 1];
+    if(sv->jit_type==SVT_GENERAL && sv->val.op==SLJIT_MEM1(SLJIT_S0) && sv->val.opw<off){
+      tmp = 1;
+    }
+    if(pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN){
+      stackvalue_GetAlignedOffset(sv,off,&off);
+    }else{
+      off += stackvalue_GetSizeAndAlign(sv, NULL);
+    }
+  }
+  if(tmp){
+    // place results behind the operand stack first.
+    sv=&m->stack[m->sp];
+    tmp=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
+    if(tmp<off)tmp=off;
+    tmp=(tmp+7)&(~7);
+    for (idx = 0; idx < len; idx++) {
+      sv = &m->stack[m->sp - len + idx + 1];
+      pwart_EmitStoreStackValue(m, sv, SLJIT_MEM1(SLJIT_S0), tmp+idx*8);
+    }
+  }
+  off = 0;
+  for (idx = 0; idx < len; idx++) {
+    sv = &m->stack[m->sp - len + idx + 1];
+    if(tmp){
+      sv2.wasm_type=sv->wasm_type;
+      sv2.jit_type=SVT_GENERAL;
+      sv2.val.op=SLJIT_MEM1(SLJIT_S0);
+      sv2.val.opw=tmp+idx*8;
+      sv=&sv2;
+    }
     if(pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN){
       pwart_EmitStoreStackValue(m, sv, SLJIT_MEM1(SLJIT_S0),
         stackvalue_GetAlignedOffset(sv,off,&off));
-- 
2.43.0


From 2cec49ba67e2a0af8355200a3678717d14725c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 16/66] fix: element segments of every form hold real
 functions, also in imported tables, and so do function globals

---
 pwart/modparser.c | 118 ++++++++++++++++++++++++++--------------------
 1 file changed, 68 insertions(+), 50 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 0753f76..328f786 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -72,8 +72,61 @@ static Export *get_export(RuntimeContext *rc, const char *name, uint32_t *kind)
 }
 
 
+// convert function reference generated by const expr to real function entry.
+static void *resolve_function_ref(ModuleCompiler *m,void *ref){
+    uint8_t *p=ref;
+    if(p>=m->functions->data && p<m->functions->data+m->functions->len*sizeof(WasmFunction)){
+        return ((WasmFunction *)ref)->func_ptr;
+    }
+    return ref;
+}
+
+static char *parse_elements(ModuleCompiler *m,uint32_t *pos){
+    uint32_t element_count = read_LEB(m->bytes, pos, 32);
+    for(uint32_t c=0; c<element_count; c++) {
+        uint32_t flags = read_LEB(m->bytes, pos, 32);
+        uint32_t index=0;
+        uint64_t offset=0;
+        void *elem;
+        if(flags>7){
+            return "Illegal segment flags.";
+        }
+        if(!(flags & 1)){
+            //active
+            if(flags & 2){
+                index=read_LEB(m->bytes, pos, 32);
+            }
+            // Run the init_expr to get offset
+            m->pc=*pos;ReturnIfErr(waexpr_run_const(m,&offset));*pos=m->pc;
+        }
+        if(flags & 3){
+            (*pos)++; //element kind or reference type, ignored.
+        }
+        uint32_t num_elem = read_LEB(m->bytes, pos, 32);
+        for (uint32_t n=0; n<num_elem; n++) {
+            if(flags & 4){
+                elem=NULL;
+                m->pc=*pos;ReturnIfErr(waexpr_run_const(m,&elem));*pos=m->pc;
+                elem=resolve_function_ref(m,elem);
+            }else{
+                elem=dynarr_get(m->functions,WasmFunction,read_LEB(m->bytes, pos, 32))->func_ptr;
+            }
+            if(!(flags & 1)){
+                //passive and declarative segments are never written.
+                Table *dtab=*dynarr_get(m->context->tables,Table *,index);
+                wa_debug("  write table entries %p, offset: 0x%x, n: 0x%x\n",
+                        dtab->entries, (uint32_t)offset, n);
+                dtab->entries[offset+n] = elem;
+            }
+        }
+    }
+    return NULL;
+}
+
+
 static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count) {
     uint8_t   vt;
+    uint32_t  elem_pos = 0;
     char err;
     uint32_t  pos = 0, word;
     m->compile_succeeded=0;
@@ -428,43 +481,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             break;
         case 9:
             wa_debug("Parsing Element(9) section (length: 0x%x)\n", slen);
-            uint32_t element_count = read_LEB(bytes, &pos, 32);
-            for(uint32_t c=0; c<element_count; c++) {
-                uint32_t flags = read_LEB(bytes, &pos, 32);
-                uint32_t index=0;
-                uint32_t offset;
-                void *elem_expr;
-                switch(flags){
-                    case 0:case 4:
-                    index=0;
-                    // Run the init_expr to get offset
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    break;
-                    case 1:case 3:
-                    index=0;
-                    pos++; //extern_kind, ignored.
-                    break;
-                    case 2:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    pos++;
-                    break;
-                    case 6:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
-                    case 5:case 7:
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
-                }
-                
-                uint32_t num_elem = read_LEB(bytes, &pos, 32);
-                Table *dtab=*dynarr_get(m->context->tables,Table *,index);
-                wa_debug("  table.entries: %p, offset: 0x%x\n", dtab->entries, offset);
-                for (uint32_t n=0; n<num_elem; n++) {
-                    wa_debug("  write table entries %p, offset: 0x%x, n: 0x%x, addr: %p\n",
-                            dtab->entries, offset, n, &dtab->entries[offset+n]);
-                    dtab->entries[offset+n] = dynarr_get(m->functions,WasmFunction,read_LEB(bytes, &pos, 32));
-                }
-            }
+            //processed after code generation, function entries are not ready yet.
+            elem_pos = pos;
             pos = start_pos+slen;
             break;
         // 9 and 11 are similar so keep them together, 10 is below 11
@@ -474,7 +492,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for (uint32_t s=0; s<seg_count; s++) {
                 uint32_t flags = read_LEB(bytes, &pos, 32);
                 uint32_t midx;
-                uint32_t offset;
+                uint64_t offset=0;
                 switch(flags){
                     case 0:  //active
                     midx=0;
@@ -497,7 +515,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 uint32_t size = read_LEB(bytes, &pos, 32);
                 Memory *memory=*dynarr_get(m->context->memories,Memory *,midx);
                 wa_debug("  setting %d bytes of memory at %p + offset %d\n",
-                    size, memory->bytes, offset);
+                    size, memory->bytes, (uint32_t)offset);
                 memcpy(memory->bytes+offset, bytes+pos, size);
                 pos += size;
                 
@@ -562,20 +580,20 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         m->context->funcentries[i]=dynarr_get(m->functions,WasmFunction,i)->func_ptr;
     }
     wa_debug("table count %x\n",m->context->own_tables_count);
-    //update table entries to real function entries.
-    for(int i1=0;i1<m->context->own_tables_count;i1++){
-        Table *tab=m->context->own_tables+i1;
-        wa_debug("table type %x\n",tab->elem_type);
-        if(tab->elem_type==WVT_FUNC){
-            for(int i=0;i<tab->size;i++){
-                if(tab->entries[i]!=NULL){
-                    wa_debug("function entry update:%p->%p\n",tab->entries[i],((WasmFunction *)tab->entries[i])->func_ptr);
-                    tab->entries[i]=((WasmFunction *)tab->entries[i])->func_ptr;
-                }
-            }
+    //update globals to real function entries.
+    for(int i=0;i<m->globals->len;i++){
+        StackValue *sv=dynarr_get(m->globals,StackValue,i);
+        if(sv->wasm_type==WVT_FUNC && (uint8_t *)sv->val.opw>=m->context->own_globals->data &&
+            (uint8_t *)sv->val.opw<m->context->own_globals->data+m->context->own_globals->len){
+            *(void **)sv->val.opw=resolve_function_ref(m,*(void **)sv->val.opw);
         }
     }
 
+    if(elem_pos!=0){
+        pos=elem_pos;
+        ReturnIfErr(parse_elements(m,&pos));
+    }
+
     //also exports.
     for(int i1=0;i1<m->context->exports->len;i1++){
         Export *exp=dynarr_get(m->context->exports,Export,i1);
-- 
2.43.0


From 1dcf1da1db3140940d38d4659b0f8bc8f636423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 17/66] fix: a global can be initialised from an earlier global
 of the same module

---
 pwart/extfunc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index af80f89..c88b97b 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -544,11 +544,16 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
       {
         uint32_t arg = read_LEB(m->bytes, &m->pc, 32);
         StackValue *sv = dynarr_get(m->globals, StackValue, arg);
+        uint8_t *addr = (uint8_t *)sv->val.opw;
+        if (sv->val.op == SLJIT_IMM) {
+          // real address has not been set, see global section in modparser.c
+          addr = m->context->own_globals->data + sv->val.opw;
+        }
         if (stackvalue_GetSizeAndAlign(sv, NULL) == 8) {
-          *(uint64_t *)sp = *(uint64_t *)(sv->val.opw);
+          memmove(sp,addr,8);
           sp+=8;
         } else {
-          *(uint32_t *)sp = *(uint32_t *)(sv->val.opw);
+          memmove(sp,addr,4);
           sp+=4;
         }
       } break;
-- 
2.43.0


From aca4a5fc7d21fce06e150a05f0bf8c5fd07f2624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:46 +0000
Subject: [PATCH 18/66] fix: skip the reference type of ref.null in constant
 expressions

---
 pwart/extfunc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index c88b97b..f6356ba 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -558,6 +558,7 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
         }
       } break;
       case 0xd0: //ref.null
+        m->pc++; // reference type
         *(void **)sp=NULL;
         sp+=m->target_ptr_size/8;
         break;
-- 
2.43.0


From b6c8c19e2b2f98ac3dac6bf479125e111ce9f116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 19/66] fix: table.fill and table.copy on table 0 work in
 functions without other table accesses

---
 pwart/opgen_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 22ab65b..30cb936 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -93,7 +93,7 @@ static void opgen_GenBaseAddressRegForTable(ModuleCompiler *m,uint32_t tabidx){
   a = pwart_GetFreeReg(m, RT_BASE, 1);
   sljit_emit_op2(m->jitc, SLJIT_SHL, a, 0, sv->val.op, sv->val.opw, SLJIT_IMM,
                 sizeof(void *) == 4 ? 2 : 3);
-  if(tabidx==0){
+  if(tabidx==0 && m->table_entries_local>=0){
     sv2 = dynarr_get(m->locals, StackValue, m->table_entries_local);
     sljit_emit_op2(m->jitc, SLJIT_ADD, a, 0, a, 0, sv2->val.op, sv2->val.opw);
   }else{
-- 
2.43.0


From 025baa2240bca1328ddac043a7b17accb0d990c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 20/66] fix: memory and table indices are unsigned

---
 pwart/opgen_misc.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index 7edc3f4..6fd52e8 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -100,24 +100,24 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
     opgen_GenNumOp(m,0xb1);
     break; 
     case 0x0a: //memory.copy
-    a=read_LEB_signed(m->bytes,&m->pc,32); //destination memory index
-    b=read_LEB_signed(m->bytes,&m->pc,32); //source memory index
+    a=read_LEB(m->bytes,&m->pc,32); //destination memory index
+    b=read_LEB(m->bytes,&m->pc,32); //source memory index
     opgen_GenMemoryCopy(m,a,b);
     break;
     case 0x0b: //memory.fill
-    a=read_LEB_signed(m->bytes,&m->pc,32); //destination memory index
+    a=read_LEB(m->bytes,&m->pc,32); //destination memory index
     opgen_GenMemoryFill(m,a);
     break;
     case 0x0e: //table.copy
     {
-      int32_t dtab=read_LEB_signed(m->bytes,&m->pc,32); //destination table index
-      int32_t stab=read_LEB_signed(m->bytes,&m->pc,32); //source table index
+      int32_t dtab=read_LEB(m->bytes,&m->pc,32); //destination table index
+      int32_t stab=read_LEB(m->bytes,&m->pc,32); //source table index
       opgen_GenTableCopy(m,dtab,stab);
     }
     break;
     case 0x0f: //table.grow
     //table are not allowed to grow
-    read_LEB_signed(m->bytes,&m->pc,32); //table index
+    read_LEB(m->bytes,&m->pc,32); //table index
     m->sp-=2;
     sv=stackvalue_Push(m,WVT_I32);
     sv->val.op=SLJIT_IMM;
@@ -125,13 +125,13 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
     break;
     case 0x10: //table.size
     {
-      uint32_t tabidx=read_LEB_signed(m->bytes,&m->pc,32);
+      uint32_t tabidx=read_LEB(m->bytes,&m->pc,32);
       opgen_GenTableSize(m,tabidx);
     }
     break;
     case 0x11:  //table.fill
     {
-      uint32_t tabidx=read_LEB_signed(m->bytes,&m->pc,32);
+      uint32_t tabidx=read_LEB(m->bytes,&m->pc,32);
       opgen_GenTableFill(m,tabidx);
     }
     break;
-- 
2.43.0


From 09dacfd61550502cce667aa518b7d98cfa348380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 21/66] fix: modules without a code section load, and a module
 that fails in its code section is freed safely

---
 pwart/modparser.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 328f786..ec22cb9 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -526,8 +526,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("Parsing Code(10) section (length: 0x%x)\n", slen);
             uint32_t body_count = read_LEB(bytes, &pos, 32);
             //we must allocate space for function entries here, for code generator.
+            if(m->context->funcentries!=NULL || m->import_count+body_count!=m->functions->len){
+                return "function and code section have inconsistent lengths";
+            }
             m->context->funcentries_count=m->import_count+body_count;
-            m->context->funcentries=wa_malloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
+            m->context->import_funcentries_count=m->import_count;
+            m->context->funcentries=wa_calloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
             for (uint32_t b=0; b<body_count; b++) {
                 wa_debug("generate code for function %d\n",b);
                 WasmFunction *function = dynarr_get(m->functions,WasmFunction,m->import_count+b);
@@ -561,6 +565,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 }
                 m->pc=pos;
                 ReturnIfErr(pwart_EmitFunction(m,function));
+                m->context->funcentries[m->import_count+b]=function->func_ptr;
                 pos=m->pc;
                 wa_assert(bytes[pos-1] == 0x0b,
                        "Code section did not end with 0x0b\n");
@@ -575,7 +580,15 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     }
 
     //set functionentry
-    m->context->import_funcentries_count=m->import_count;
+    if(m->context->funcentries==NULL){
+        //no code section
+        if(m->functions->len!=m->import_count){
+            return "function and code section have inconsistent lengths";
+        }
+        m->context->funcentries_count=m->import_count;
+        m->context->import_funcentries_count=m->import_count;
+        m->context->funcentries=wa_calloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
+    }
     for(int i=0;i<m->functions->len;i++){
         m->context->funcentries[i]=dynarr_get(m->functions,WasmFunction,i)->func_ptr;
     }
@@ -644,7 +657,7 @@ static int free_runtimectx(RuntimeContext *rc){
     if(rc->funcentries!=NULL){
         //only free code generate by module self.
         for(i=rc->import_funcentries_count;i<rc->funcentries_count;i++){
-            if(rc->funcentries!=NULL)
+            if(rc->funcentries[i]!=NULL)
                 pwart_FreeFunction(rc->funcentries[i]);
         }
         wa_free(rc->funcentries);
-- 
2.43.0


From de850d2f92337586fe8f70f809c6264114a2996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:14 +0000
Subject: [PATCH 22/66] fix: refuse bad headers, too many locals and too many
 operands with an error instead of exiting the process

---
 pwart/def.h         |  2 +-
 pwart/modparser.c   | 14 ++++++++++++--
 pwart/opgen_utils.c |  1 -
 pwart/wagen.c       |  3 +++
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index ecc707c..3135835 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -196,7 +196,7 @@ typedef struct ModuleCompiler {
     int32_t target_ptr_size;
     uint32_t    pc;        // current parser pos
     int         sp;         // operand stack pointer, stack[sp] is valid stack value.
-    StackValue  stack[OPERAND_STACK_COUNT]; // main operand stack
+    StackValue  stack[OPERAND_STACK_COUNT+272]; // main operand stack, and space for one instruction to overflow (results of a call)
     struct dynarr *blocks; // block stacks, block type
     struct dynarr *br_table; // br_table branch indexes, uint32_t type
     uint8_t eof;      // end of function
diff --git a/pwart/modparser.c b/pwart/modparser.c
index ec22cb9..7f8a541 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -157,10 +157,17 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
 
     // Check the module
     pos = 0;
+    if(byte_count<8){
+        return "Module too short";
+    }
     word = read_uint32(bytes, &pos);
-    wa_assert(word == WA_MAGIC, "Wrong module magic\n");
+    if(word != WA_MAGIC){
+        return "Wrong module magic";
+    }
     word = read_uint32(bytes, &pos);
-    wa_assert(word == WA_VERSION, "Wrong module version\n");
+    if(word != WA_VERSION){
+        return "Wrong module version";
+    }
 
     // Read the sections
     while (pos < byte_count) {
@@ -548,6 +555,9 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 for (uint32_t l=0; l<local_type_count; l++) {
                     lecount = read_LEB(bytes, &pos, 32);
                     local_count += lecount;
+                    if(lecount>255 || local_count>255){
+                        return "too many locals.(should less than 256)";
+                    }
                     tidx =  read_LEB(bytes, &pos, 7);
                     (void)tidx; // TODO: use tidx?
                 }
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 7647cec..e298ef8 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -320,7 +320,6 @@ static StackValue *stackvalue_Push(ModuleCompiler *m, int32_t wasm_type) {
       sv2->frame_offset=stackvalue_GetAlignedOffset(sv2,sv2->frame_offset,NULL);
     }
   }
-  wa_assert(m->sp<OPERAND_STACK_COUNT-1,"operand stack overflow");
   return sv2;
 }
 
diff --git a/pwart/wagen.c b/pwart/wagen.c
index c941c0e..9acc997 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -364,6 +364,9 @@ static char *pwart_GenCode(ModuleCompiler *m) {
     } else {
       ReturnIfErr(opgen_GenMiscOp(m, opcode));
     }
+    if (m->sp >= OPERAND_STACK_COUNT-1) {
+      return "operand stack overflow";
+    }
   }
 
   #if DEBUG_BUILD
-- 
2.43.0


From c1dc18dfce0a37282775e32ed5955923c99b97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 23/66] fix: scanning a function with unsupported instructions
 does not run into wild local or memory indices

---
 pwart/wagen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 9acc997..b7a4bbe 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -229,6 +229,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
       arg = read_LEB(m->bytes, &m->pc, 32);
       if(arg&0x40)midx=read_LEB(m->bytes, &m->pc, 32);
       offset = read_LEB(m->bytes, &m->pc, 32);
+      if(midx>=m->context->memories->len)return "illegal memory index, unsupported feature may used.";
       if(m->cached_midx<0 && (*dynarr_get(m->context->memories,Memory *,midx))->bytes!=NULL){
         m->mem_base_local = -2;
         m->cached_midx=midx;
@@ -239,6 +240,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
       break;
     case 0x20: //local.get
       arg=read_LEB(bytes, &m->pc, 32);
+      if(arg>=m->locals->len)return "illegal local index, unsupported feature may used.";
       sv=dynarr_get(m->locals,StackValue,arg);
       if(pwart_gcfg.misc_flags&PWART_MISC_FLAGS_LOCALS_ZERO_INIT){
         if(sv->val.op>m->blocks->len)sv->jit_type|=1;
@@ -246,6 +248,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
       break;
     case 0x21: //local.set
       arg=read_LEB(bytes, &m->pc, 32);
+      if(arg>=m->locals->len)return "illegal local index, unsupported feature may used.";
       sv=dynarr_get(m->locals,StackValue,arg);
       if(pwart_gcfg.misc_flags&PWART_MISC_FLAGS_LOCALS_ZERO_INIT){
         if(sv->val.op>m->blocks->len)sv->val.op=m->blocks->len;
@@ -253,6 +256,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
       break;
     case 0x22: //local.tee
       arg=read_LEB(bytes, &m->pc, 32);
+      if(arg>=m->locals->len)return "illegal local index, unsupported feature may used.";
       sv=dynarr_get(m->locals,StackValue,arg);
       if(pwart_gcfg.misc_flags&PWART_MISC_FLAGS_LOCALS_ZERO_INIT){
         if(sv->val.op>m->blocks->len)sv->val.op=m->blocks->len;
-- 
2.43.0


From 5ce10942cf483e6bc587eb6b835d28916d8a714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 24/66] fix: a removed module is not found in its namespace any
 more

---
 pwart/namespace.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 06c8389..67c8b29 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -87,6 +87,7 @@ extern struct pwart_named_module *pwart_namespace_find_module(pwart_namespace ns
     int i=0;
     for(i=0;i<n->mods->len;i++){
         struct pwart_named_module *m=dynarr_get(n->mods,struct pwart_named_module,i);
+        if(m->type==0)continue; //PWART_MODULE_TYPE_NULL, has been removed.
         if(strcmp(m->name,name)==0){
             return m;
         }
@@ -120,7 +121,12 @@ extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named
     if(m!=NULL){
         pwart_namespace_remove_module(ns,m->name);
     }else{
-        m=dynarr_push_type(&n->mods,struct pwart_named_module);
+        //reuse the place of removed module.
+        for(int i=0;i<n->mods->len && m==NULL;i++){
+            m=dynarr_get(n->mods,struct pwart_named_module,i);
+            if(m->type!=0)m=NULL;
+        }
+        if(m==NULL)m=dynarr_push_type(&n->mods,struct pwart_named_module);
     }
     memmove(m,mod,sizeof(struct pwart_named_module));
     switch(m->type){
-- 
2.43.0


From 2a8c0653dd631260ec0f721f2c0e991b1d83d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:09 +0000
Subject: [PATCH 25/66] fix: release everything when loading a module fails,
 also from inside a module

---
 pwart/extfunc.c   | 2 +-
 pwart/modparser.c | 2 +-
 pwart/namespace.c | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index f6356ba..1e7e184 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -424,7 +424,7 @@ static void insn_load_module(void *fp){
   Namespace *ns=namespace_GetNamespaceFormResolver(m->resolver);
   char *err_msg=NULL;
   pwart_module_state stat=pwart_namespace_define_wasm_module((pwart_namespace)ns,name,wasm_bytes,length,&err_msg);
-  pwart_wasm_function stfn=pwart_get_start_function(stat);
+  pwart_wasm_function stfn=stat!=NULL?pwart_get_start_function(stat):NULL;
   if(stfn!=NULL){
     pwart_call_wasm_function(stfn,sp);
   }
diff --git a/pwart/modparser.c b/pwart/modparser.c
index 7f8a541..7f4067f 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -681,7 +681,7 @@ static int free_runtimectx(RuntimeContext *rc){
 
 static char *free_module(ModuleCompiler *m){
     int i=0;
-    if(!m->compile_succeeded){
+    if(!m->compile_succeeded && m->context!=NULL){
         free_runtimectx(m->context);
     }
     if(m->types!=NULL){
diff --git a/pwart/namespace.c b/pwart/namespace.c
index 67c8b29..4c35b59 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -75,6 +75,7 @@ extern char *pwart_namespace_delete(pwart_namespace ns){
                 break;
         }
     }
+    dynarr_free(&n->mods);
     if(n->nsmeta!=NULL){
         wa_free(n->nsmeta);
     }
@@ -156,6 +157,7 @@ extern pwart_module_state *pwart_namespace_define_wasm_module(pwart_namespace ns
         state=pwart_get_module_state(m);
     }else{
         if(err_msg!=NULL)*err_msg=err;
+        pwart_free_module_compiler(m);
         return NULL;
     }
     pwart_free_module_compiler(m);
-- 
2.43.0


From 6689eb08cb59774f35e67b5360ffb50f2abe4a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 26/66] fix: file builtins report the error of their own
 operation

---
 pwart/extfunc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 1e7e184..31014ed 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -726,6 +726,7 @@ static void insn_fopen(void *fp){
   _wargref(filename)
   _wargref(mode)
   sp=fp;
+  errno=0;
   FILE *f=fopen(filename,mode);
   pwart_rstack_put_ref(&sp,f);
   pwart_rstack_put_i32(&sp,errno);
@@ -738,6 +739,7 @@ static void insn_fread(void *fp){
   _wargi32(count)
   _wargref(file)
   sp=fp;
+  errno=0;
   uint32_t nread=(uint32_t)fread(buf,size,count,file);
   pwart_rstack_put_i32(&sp,nread);
   pwart_rstack_put_i32(&sp,errno);
@@ -750,6 +752,7 @@ static void insn_fwrite(void *fp){
   _wargi32(count)
   _wargref(file)
   sp=fp;
+  errno=0;
   uint32_t nwrite=(uint32_t)fwrite(buf,size,count,file);
   pwart_rstack_put_i32(&sp,nwrite);
   pwart_rstack_put_i32(&sp,errno);
@@ -759,6 +762,7 @@ static void insn_fclose(void *fp){
   void *sp=fp;
   _wargref(file)
   sp=fp;
+  errno=0;
   fclose(file);
   pwart_rstack_put_i32(&sp,errno);
 }
-- 
2.43.0


From 5aac786670eb21b116d0b513b5f80312a3c82bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 27/66] fix: inspecting a module without table or memory gives
 defined values

---
 pwart/pwart.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart/pwart.c b/pwart/pwart.c
index 917c341..9aa6566 100644
--- a/pwart/pwart.c
+++ b/pwart/pwart.c
@@ -104,6 +104,7 @@ extern pwart_module_state pwart_get_module_state(pwart_module_compiler mod){
 
 extern char *pwart_inspect_module_state(pwart_module_state c,struct pwart_inspect_result1 *result){
     RuntimeContext *rc=c;
+    memset(result,0,sizeof(struct pwart_inspect_result1));
     if(rc->tables->len>0){
         Table *tab=*dynarr_get(rc->tables,Table *,0);
         result->table_entries_count=tab->size;
-- 
2.43.0


From a4c6fe7f10539402b9df4486709722f4c5fedcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 28/66] fix: results of a call in an aligned frame leave no gap
 on the operand stack

---
 pwart/opgen_utils.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index e298ef8..a27fc2e 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -360,7 +360,7 @@ static void stackvalue_EmitSwapTopTwoValue(ModuleCompiler *m) {
 static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg,
                               sljit_sw offset,int callReturn) {
   StackValue *sv;
-  int a, b, len,func_frame_offset;
+  int a, b, len,func_frame_offset,result_offset;
   int i;
   //Caution: Do not use scratch register before sljit_emit_icall to avoid overwrite [memreg,offset]
   //XXX: Maybe we need use RS_RESERVED to avoid unexpected overwrite.
@@ -444,15 +444,21 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
     m->block_returned=1;
   }
   len = strlen((const char *)type->results);
+  result_offset=func_frame_offset;
   for (a = 0; a < len; a++) {
     b = type->results[a];
     sv = stackvalue_Push(m, b);
     sv->jit_type = SVT_GENERAL;
     sv->val.op = SLJIT_MEM1(SLJIT_S0);
-    if(a==0){
-      sv->frame_offset=func_frame_offset;
+    //place of the result, it differs from frame_offset when the frame has been moved to be aligned.
+    if(pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN){
+      sv->val.opw = stackvalue_GetAlignedOffset(sv,result_offset,&result_offset);
+    }else{
+      sv->val.opw = result_offset;
+      result_offset += stackvalue_GetSizeAndAlign(sv,NULL);
     }
-    sv->val.opw = sv->frame_offset;
+    //move it back, to leave no gap between stack values.
+    pwart_EmitSaveStack(m,sv);
   }
   
   if((m->mem_base_local >= 0)){
-- 
2.43.0


From 6868ab481faaacb2daa824d48ac64a4b3c1a464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 29/66] fix: load and store offsets of 2^31 and above are
 unsigned

---
 pwart/opgen_mem.c   | 2 +-
 pwart/opgen_utils.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 30cb936..26a7ca7 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -153,7 +153,7 @@ static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
                      (sljit_sw)&insn_memorygrow);
 }
 
-static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, int offset) {
+static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, sljit_sw offset) {
   StackValue *sv=m->stack+m->sp;
   int a=pwart_GetFreeReg(m,RT_INTEGER,1);
   switch (opcode) {
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index a27fc2e..6f4c7d2 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -111,7 +111,7 @@ static StackValue *stackvalue_FindSvalueUseReg(ModuleCompiler *m, sljit_s32 r,
 }
 
 static char *pwart_EmitStoreStackValue(ModuleCompiler *m, StackValue *sv, int memreg,
-                                     int offset) {
+                                     sljit_sw offset) {
   if (sv->jit_type == SVT_GENERAL) {
     if(memreg==sv->val.op && offset==sv->val.opw)return 0;
     if (m->target_ptr_size == 64) {
-- 
2.43.0


From d49af44c8c2f32c77bfe48a5548dab8addb9b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 30/66] fix: a namespace keeps its own copy of module names

---
 pwart/namespace.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 4c35b59..24d085c 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -74,6 +74,7 @@ extern char *pwart_namespace_delete(pwart_namespace ns){
                 ReturnIfErr(pwart_free_module_state(m->val.wasm));
                 break;
         }
+        if(m->type!=0)wa_free((void *)m->name);
     }
     dynarr_free(&n->mods);
     if(n->nsmeta!=NULL){
@@ -110,6 +111,8 @@ extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
                 break;
         }
         m->type=PWART_MODULE_TYPE_NULL;
+        wa_free((void *)m->name);
+        m->name=NULL;
     }
     return NULL;
 }
@@ -118,6 +121,9 @@ extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
 extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named_module *mod){
     Namespace *n=(Namespace *)ns;
     struct pwart_named_module *m;
+    //keep our own copy of the name, the caller may release it.
+    char *name=wa_malloc(strlen(mod->name)+1);
+    strcpy(name,mod->name);
     m=pwart_namespace_find_module(ns,mod->name);
     if(m!=NULL){
         pwart_namespace_remove_module(ns,m->name);
@@ -130,6 +136,7 @@ extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named
         if(m==NULL)m=dynarr_push_type(&n->mods,struct pwart_named_module);
     }
     memmove(m,mod,sizeof(struct pwart_named_module));
+    m->name=name;
     switch(m->type){
         case PWART_MODULE_TYPE_HOST_MODULE:
         m->val.host->namespace2=ns;
-- 
2.43.0


From 81881aa5daffbebd356561e86c68b032e7bc7287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:46 +0000
Subject: [PATCH 31/66] fix: a refused module writes none of its segments to
 imported memories and tables

---
 pwart/modparser.c | 95 ++++++++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 39 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 7f4067f..5d4ef9d 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -81,7 +81,8 @@ static void *resolve_function_ref(ModuleCompiler *m,void *ref){
     return ref;
 }
 
-static char *parse_elements(ModuleCompiler *m,uint32_t *pos){
+// If write is 0, only check the segments.
+static char *parse_elements(ModuleCompiler *m,uint32_t *pos,int write){
     uint32_t element_count = read_LEB(m->bytes, pos, 32);
     for(uint32_t c=0; c<element_count; c++) {
         uint32_t flags = read_LEB(m->bytes, pos, 32);
@@ -111,7 +112,7 @@ static char *parse_elements(ModuleCompiler *m,uint32_t *pos){
             }else{
                 elem=dynarr_get(m->functions,WasmFunction,read_LEB(m->bytes, pos, 32))->func_ptr;
             }
-            if(!(flags & 1)){
+            if(write && !(flags & 1)){
                 //passive and declarative segments are never written.
                 Table *dtab=*dynarr_get(m->context->tables,Table *,index);
                 wa_debug("  write table entries %p, offset: 0x%x, n: 0x%x\n",
@@ -124,9 +125,48 @@ static char *parse_elements(ModuleCompiler *m,uint32_t *pos){
 }
 
 
+// If write is 0, only check the segments.
+static char *parse_data(ModuleCompiler *m,uint32_t *pos,int write){
+    uint32_t seg_count = read_LEB(m->bytes, pos, 32);
+    for (uint32_t s=0; s<seg_count; s++) {
+        uint32_t flags = read_LEB(m->bytes, pos, 32);
+        uint32_t midx;
+        uint64_t offset=0;
+        switch(flags){
+            case 0:  //active
+            midx=0;
+            break;
+            case 1:  //passive
+            return "passive segment not support yet";
+            break;
+            case 2:  //active with memory index
+            midx=read_LEB(m->bytes, pos, 32);
+            break;
+            default:
+            return "Illegal segment flags.";
+        }
+        // Run the init_expr to get the offset
+        m->pc=*pos;
+        ReturnIfErr(waexpr_run_const(m,&offset));
+        *pos=m->pc;
+
+        // Copy the data to the memory offset
+        uint32_t size = read_LEB(m->bytes, pos, 32);
+        if(write){
+            Memory *memory=*dynarr_get(m->context->memories,Memory *,midx);
+            wa_debug("  setting %d bytes of memory at %p + offset %d\n",
+                size, memory->bytes, (uint32_t)offset);
+            memcpy(memory->bytes+offset, m->bytes+*pos, size);
+        }
+        *pos += size;
+    }
+    return NULL;
+}
+
+
 static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count) {
     uint8_t   vt;
-    uint32_t  elem_pos = 0;
+    uint32_t  elem_pos = 0, data_pos = 0;
     char err;
     uint32_t  pos = 0, word;
     m->compile_succeeded=0;
@@ -495,39 +535,9 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         // 9 and 11 are similar so keep them together, 10 is below 11
         case 11:
             wa_debug("Parsing Data(11) section (length: 0x%x)\n", slen);
-            uint32_t seg_count = read_LEB(bytes, &pos, 32);
-            for (uint32_t s=0; s<seg_count; s++) {
-                uint32_t flags = read_LEB(bytes, &pos, 32);
-                uint32_t midx;
-                uint64_t offset=0;
-                switch(flags){
-                    case 0:  //active
-                    midx=0;
-                    break;
-                    case 1:  //passive
-                    return "passive segment not support yet";
-                    break;
-                    case 2:  //active with memory index
-                    midx=read_LEB(bytes, &pos, 32);
-                    break;
-                    default:
-                    return "Illegal segment flags.";
-                }
-                // Run the init_expr to get the offset
-                m->pc=pos;
-                ReturnIfErr(waexpr_run_const(m,&offset));
-                pos=m->pc;
-
-                // Copy the data to the memory offset
-                uint32_t size = read_LEB(bytes, &pos, 32);
-                Memory *memory=*dynarr_get(m->context->memories,Memory *,midx);
-                wa_debug("  setting %d bytes of memory at %p + offset %d\n",
-                    size, memory->bytes, (uint32_t)offset);
-                memcpy(memory->bytes+offset, bytes+pos, size);
-                pos += size;
-                
-            }
-
+            //processed at last, nothing is written if the module is refused.
+            data_pos = pos;
+            pos = start_pos+slen;
             break;
         case 10:
             wa_debug("Parsing Code(10) section (length: 0x%x)\n", slen);
@@ -612,9 +622,16 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         }
     }
 
-    if(elem_pos!=0){
-        pos=elem_pos;
-        ReturnIfErr(parse_elements(m,&pos));
+    //memories and tables may belong to other modules, check all segments before writing any of them.
+    for(int write=0;write<2;write++){
+        if(data_pos!=0){
+            pos=data_pos;
+            ReturnIfErr(parse_data(m,&pos,write));
+        }
+        if(elem_pos!=0){
+            pos=elem_pos;
+            ReturnIfErr(parse_elements(m,&pos,write));
+        }
     }
 
     //also exports.
-- 
2.43.0


From ca664a81b742efc3be1129264ae23187e0e7d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 32/66] fix: a register destination also used in the address of
 the second operand is not overwritten early

---
 sljit/sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 76e9a76..5e1e2d6 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2109,7 +2109,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2182,7 +2182,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
-- 
2.43.0


From f2c234fd2fe15b560d51c159c6c568e4c972c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 33/66] fix: sljit multiplication always reaches its
 destination register

---
 sljit/sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 5e1e2d6..9c27854 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2311,7 +2311,7 @@ static sljit_s32 emit_mul(struct sljit_compiler *compiler,
 		FAIL_IF(emit_groupf(compiler, IMUL_r_rm, dst_r, src2, src2w));
 	}
 
-	if (dst & SLJIT_MEM)
+	if (dst_r != dst)
 		EMIT_MOV(compiler, dst, dstw, TMP_REG1, 0);
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From 390849348dfdb66c4fbe726301e5d8c1b3a1f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 34/66] fix: shift amount loaded from memory with a large
 displacement keeps rcx

---
 sljit/sljit_src/sljitNativeX86_common.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 9c27854..13965c1 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2615,14 +2615,18 @@ static sljit_s32 emit_shift(struct sljit_compiler *compiler,
 	EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
 #if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
 	EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_PREF_SHIFT_REG, 0);
+	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 #else /* !SLJIT_CONFIG_X86_32 */
+	/* Loading src2 may need TMP_REG2 for computing the address. */
+	EMIT_MOV(compiler, TMP_REG2, 0, src2, src2w);
 	mode32 = compiler->mode32;
 	compiler->mode32 = 0;
-	EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	inst = emit_x86_instruction(compiler, 1, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	FAIL_IF(!inst);
+	*inst = XCHG_r_rm;
 	compiler->mode32 = mode32;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 	inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_PREF_SHIFT_REG, 0, TMP_REG1, 0);
 	FAIL_IF(!inst);
 	inst[1] |= mode;
-- 
2.43.0


From e685be6e82b06252a785c10dcacc9edc5af02024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 35/66] fix: sljit_emit_shift_into with zero amount or
 overlapping operands

---
 sljit/sljit_src/sljitNativeX86_common.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 13965c1..6a291a5 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2865,8 +2865,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			CHECK_EXTRA_REGS(src1_reg, src1w, (void)0);
+			if (dst_reg == src1_reg && dstw == src1w)
+				return SLJIT_SUCCESS;
+			return emit_mov(compiler, dst_reg, dstw, src1_reg, src1w);
+		}
 	}
 
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
@@ -2925,7 +2929,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		move_src1 = 0;
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2949,7 +2953,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				restore_sp4 = src1_reg;
 			}
 		} else if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2979,6 +2983,11 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		}
 
 		if (move_src1) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+			/* The original value is already replaced by src3. */
+			if (src1_reg == SLJIT_PREF_SHIFT_REG && restore_ecx)
+				src1_reg = TMP_REG1;
+#endif /* SLJIT_CONFIG_X86_64 */
 			EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 			src1_reg = dst_reg;
 			src1w = 0;
-- 
2.43.0


From 835703527a9517ab61aef3a3e96e2cab04098655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 36/66] fix: deserialized sljit compiler keeps the scratch and
 saved register counts

---
 sljit/sljit_src/sljitSerialize.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/sljit/sljit_src/sljitSerialize.c b/sljit/sljit_src/sljitSerialize.c
index 042cc18..99e5f93 100644
--- a/sljit/sljit_src/sljitSerialize.c
+++ b/sljit/sljit_src/sljitSerialize.c
@@ -65,6 +65,10 @@ struct sljit_serialized_compiler {
 	sljit_s32 saveds;
 	sljit_s32 fscratches;
 	sljit_s32 fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
 	sljit_s32 local_size;
 	sljit_uw size;
 
@@ -97,6 +101,12 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 };
 
 struct sljit_serialized_label {
@@ -212,6 +222,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 	serialized_compiler->saveds = compiler->saveds;
 	serialized_compiler->fscratches = compiler->fscratches;
 	serialized_compiler->fsaveds = compiler->fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	serialized_compiler->vscratches = compiler->vscratches;
+	serialized_compiler->vsaveds = compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
 	serialized_compiler->local_size = compiler->local_size;
 	serialized_compiler->size = compiler->size;
 
@@ -309,6 +323,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+		serialized_debug_info->vscratches = compiler->vscratches;
+		serialized_debug_info->vsaveds = compiler->vsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -366,6 +386,10 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->saveds = serialized_compiler->saveds;
 	compiler->fscratches = serialized_compiler->fscratches;
 	compiler->fsaveds = serialized_compiler->fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->vscratches = serialized_compiler->vscratches;
+	compiler->vsaveds = serialized_compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
 	compiler->local_size = serialized_compiler->local_size;
 	compiler->size = serialized_compiler->size;
 
@@ -573,6 +597,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+	compiler->vscratches = serialized_debug_info->vscratches;
+	compiler->vsaveds = serialized_debug_info->vsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From bc5b18414df7ae7aa2b850a7f1292d9802faa5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 37/66] fix: regex: ^a$ accepted strings with characters after
 the match

---
 sljit/regex_src/regexJIT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 3f95469..3aa36f5 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2169,6 +2169,11 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 			EMIT_CMP(jump, SLJIT_NOT_EQUAL, R_NEXT_HEAD, 0, SLJIT_IMM, 0);
 			sljit_set_label(jump, start_label);
 		}
+		else if (compiler_common.flags & REGEX_MATCH_END) {
+			/* The string matches until now, but it may be continued. */
+			EMIT_CMP(jump, SLJIT_NOT_EQUAL, SLJIT_MEM1(R_CURR_STATE), TERM_REL_OFFSET_OF(0, 1), SLJIT_IMM, -1);
+			sljit_set_label(jump, start_label);
+		}
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, fast_quit), SLJIT_IMM, 1);
 	}
 
-- 
2.43.0


From 9c16a56de33436fbf94ea35caf6ada856b84e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 38/66] fix: regex: newline anchors applied to one alternative
 only

---
 sljit/regex_src/regexJIT.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 3aa36f5..8a6f264 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -794,6 +794,12 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 		/* Begin intentionally kept as 1. */
 	}
 
+	if (compiler_common->flags & REGEX_NEWLINE) {
+		/* The new-line searches belong to all alternatives. */
+		if (stack_push(stack, type_open_br, 0))
+			return REGEX_MEMORY_ERROR;
+	}
+
 	while (length > 0) {
 		switch (*regex_string) {
 		case '\\' :
@@ -914,6 +920,11 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 	if (depth != 0)
 		return REGEX_INVALID_REGEX;
 
+	if (compiler_common->flags & REGEX_NEWLINE) {
+		if (stack_push(stack, type_close_br, 0))
+			return REGEX_MEMORY_ERROR;
+	}
+
 	if ((compiler_common->flags & (REGEX_MATCH_END | REGEX_NEWLINE)) == (REGEX_MATCH_END | REGEX_NEWLINE)) {
 		/* Replace REGEX_MATCH_END flag to REGEX_FAKE_MATCH_END */
 		compiler_common->flags &= ~REGEX_MATCH_END;
-- 
2.43.0


From d01d93b69a1c62d92b291f3be752b8af620b6023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 39/66] fix: regex: result at the end of the string ignored an
 earlier or longer match

---
 sljit/regex_src/regexJIT.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 8a6f264..97e2fbf 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2457,12 +2457,16 @@ int regex_get_result(struct regex_match *match, int *end, int *id)
 
 	if (flags & REGEX_FAKE_MATCH_END) {
 		SLJIT_ASSERT(!(flags & (REGEX_MATCH_BEGIN | REGEX_MATCH_END)));
-		if (match->best_begin != -1)
-			return (int)match->best_begin;
-
 		no_states = match->machine->no_states;
 		if (match->current[no_states + 1] == -1)
-			return -1;
+			return (int)match->best_begin;
+
+		/* The end of the string may also be the end of a match, which is preferred
+		   if it starts earlier, or it is longer (unless the shorter is needed). */
+		if (match->best_begin != -1 && (match->best_begin < match->current[no_states + 2]
+				|| (match->best_begin == match->current[no_states + 2] && (flags & REGEX_MATCH_NON_GREEDY))))
+			return (int)match->best_begin;
+
 		if (flags & REGEX_ID_CHECK)
 			*id = (int)match->current[no_states + 3];
 		if (!(flags & REGEX_FAKE_MATCH_BEGIN))
-- 
2.43.0


From 8b573f84fd9bbaa403afddc5ac91c97ecb15b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 40/66] fix: regex: characters from 0x80 in patterns never
 matched

---
 sljit/regex_src/regexJIT.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 97e2fbf..72da56e 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -373,6 +373,13 @@ enum {
 	type_qestion_mark
 };
 
+/* Characters are unsigned numbers. */
+#ifdef REGEX_USE_8BIT_CHARS
+#define CHAR_VALUE(chr) ((int)(unsigned char)(chr))
+#else
+#define CHAR_VALUE(chr) ((int)(chr))
+#endif
+
 struct compiler_common {
 	/* Temporary stacks. */
 	struct stack stack;
@@ -666,7 +673,7 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 {
 	struct stack* stack = &compiler_common->stack;
 	const regex_char_t *base_from = regex_string;
-	regex_char_t left_char, right_char, tmp_char;
+	int left_char, right_char, tmp_char;
 
 	length--;
 	regex_string++;
@@ -708,13 +715,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			break;
 
 		if (*regex_string != '\\')
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		else {
 			regex_string++;
 			length--;
 			if (length == 0)
 				return -2;
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		}
 		regex_string++;
 		length--;
@@ -725,13 +732,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			length--;
 
 			if (*regex_string != '\\')
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			else {
 				regex_string++;
 				length--;
 				if (length == 0)
 					return -2;
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			}
 			regex_string++;
 			length--;
@@ -807,7 +814,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 			regex_string++;
 			if (length == 0)
 				return REGEX_INVALID_REGEX;
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
@@ -907,7 +914,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				compiler_common->flags |= REGEX_MATCH_END;
 				break;
 			}
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
-- 
2.43.0


From 7ad7cdf2de5c6c43a18aed8e97fc9239420e997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 41/66] fix: regex: allocation failure after an iterator was
 taken for success

---
 sljit/regex_src/regexJIT.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 72da56e..fb11ebf 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -486,9 +486,9 @@ static int iterate(struct stack *stack, int min, int max)
 		stack_clone(&it, stack);
 		/* and put an empty bracket expression instead of it. */
 		if (stack_push(stack, type_open_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		if (stack_push(stack, type_close_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		return len;
 	}
 
@@ -522,7 +522,7 @@ static int iterate(struct stack *stack, int min, int max)
 				if (stack_push_copy(stack, count, count))
 					return -1;
 				if (stack_push(stack, type_qestion_mark, 0))
-					return REGEX_MEMORY_ERROR;
+					return -1;
 				count++;
 				max--;
 			}
@@ -532,7 +532,7 @@ static int iterate(struct stack *stack, int min, int max)
 			max--;
 			count++;
 			if (stack_push(stack, type_qestion_mark, 0))
-				return REGEX_MEMORY_ERROR;
+				return -1;
 		}
 
 		while (max > 0) {
@@ -553,12 +553,12 @@ static int iterate(struct stack *stack, int min, int max)
 		}
 
 		if (stack_push(stack, type_plus_sign, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 	}
 
 	/* Close the opened bracket. */
 	if (stack_push(stack, type_close_br, 0))
-		return REGEX_MEMORY_ERROR;
+		return -1;
 
 	return len;
 }
-- 
2.43.0


From 68da01be87a7b3b266d0a7099993df037fbea0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 42/66] fix: regex: regex_reset_match kept the accepting state

---
 sljit/regex_src/regexJIT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index fb11ebf..3185b44 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2439,6 +2439,8 @@ void regex_reset_match(struct regex_match *match)
 			current_ptr[ind] = -1;
 		} while (current != 0);
 	}
+	/* The list ends with the accepting state, which may be active as well. */
+	match->current[1] = -1;
 	match->head = machine->u.call_init(match->current, match);
 }
 
-- 
2.43.0


From 23fc3fe7ad2c820dda41c10657944f6daa3f2282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 43/66] fix: regex: non-greedy patterns that may be empty
 before $ had no initial state

---
 sljit/regex_src/regexJIT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 3185b44..19ef9ba 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2274,7 +2274,7 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(SLJIT_S1), SLJIT_OFFSETOF(struct regex_match, index), SLJIT_IMM, !(compiler_common.flags & REGEX_FAKE_MATCH_BEGIN) ? 1 : 2);
 
-		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || empty_match_id == -1) {
+		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || empty_match_id == -1 || (compiler_common.flags & REGEX_MATCH_END)) {
 			/* The else is a really rare event, so we still generate an empty function instead of a runtime pointer check. */
 			SLJIT_ASSERT(R_CURR_STATE == SLJIT_S0);
 			if (!(compiler_common.flags & REGEX_MATCH_BEGIN)) {
-- 
2.43.0


From 872f544ae38d0e95d999570b3a4ea8347c28ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 44/66] fix: regex: upper half of the int length argument was
 used

---
 sljit/regex_src/regexJIT.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 19ef9ba..8c03999 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -1989,7 +1989,9 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 	/* Copy arguments to their place. */
 	EMIT_OP1(SLJIT_MOV, R_REGEX_MATCH, 0, SLJIT_S0, 0);
 	EMIT_OP1(SLJIT_MOV, R_STRING, 0, SLJIT_S1, 0);
-	EMIT_OP2(SLJIT_ADD, R_LENGTH, 0, SLJIT_S2, 0, SLJIT_IMM, 1);
+	/* The upper half of a 32 bit argument is undefined. */
+	EMIT_OP1(SLJIT_MOV_S32, R_LENGTH, 0, SLJIT_S2, 0);
+	EMIT_OP2(SLJIT_ADD, R_LENGTH, 0, R_LENGTH, 0, SLJIT_IMM, 1);
 
 	/* Init global registers. */
 	EMIT_OP1(SLJIT_MOV, R_CURR_STATE, 0, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, current));
-- 
2.43.0


From e2b55783a67a22ebbbd08165564e4a9e8b42c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 45/66] fix: regex: stale beginning of the empty match at the
 end of the string

---
 sljit/regex_src/regexJIT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 8c03999..1bbacb5 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -1965,6 +1965,9 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 				SLJIT_ASSERT(compiler_common.dfa_transitions[ind].type != type_end);
 				if (compiler_common.dfa_transitions[ind].type == type_rng_start && compiler_common.dfa_transitions[ind].value)
 					suggest_fast_forward = 0;
+				/* The end of the string is an empty match: its beginning must be kept up to date. */
+				if (compiler_common.dfa_transitions[ind].type == type_newline)
+					suggest_fast_forward = 0;
 			}
 			compiler_common.search_states[ind].value = -1;
 		}
-- 
2.43.0


From e1bf530fdaced5b225941c144d01cd05bd462c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 46/66] fix: libuv: a thread ran on its descriptor instead of
 its stack

---
 pwart_syslib/libuv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 82901af..69ebffc 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -53,7 +53,7 @@ static void wasm__uv_wasmthreadentry(void *awt){
     wt->stack=pwart_allocate_stack(64*1024);
     void *sp=wt->stack;
     pwart_rstack_put_i64(&sp,wt->arg);
-    pwart_call_wasm_function(wt->wasmentry,wt);
+    pwart_call_wasm_function(wt->wasmentry,wt->stack);
     pwart_free_stack(wt->stack);
     wa_free(wt);
 }
-- 
2.43.0


From e74de7118f0728f8c679d59d3c5eddfd9dbdbb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 47/66] fix: libuv: result of trylock and timedwait was not at
 the start of the frame

---
 pwart_syslib/libuv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 69ebffc..77db8e6 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -93,6 +93,7 @@ static void wasm__uv_mutex_lock(void *fp){
 static void wasm__uv_mutex_trylock(void *fp){
     void *sp=fp;
     _wargref(mut)
+    sp=fp;
     int err=uv_mutex_trylock(mut);
     pwart_rstack_put_i32(&sp,err);
 }
@@ -137,6 +138,7 @@ static void wasm__uv_cond_timedwait(void *fp){
     _wargref(cond)
     _wargref(mut)
     _wargi64(timeout)
+    sp=fp;
     int r=uv_cond_timedwait(cond,mut,timeout);
     pwart_rstack_put_i32(&sp,r);
 }
-- 
2.43.0


From dbc939040f22825efb1cebd875abb205addd7423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 48/66] fix: libffi: closures were allocated with four bytes

---
 pwart_syslib/libffi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index a80c35c..86e6d7c 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -115,7 +115,7 @@ static void wasm__ffi_closure_alloc(void *fp){
     void *sp=fp;
     void *code=NULL;
     sp=fp;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
+    void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
     pwart_rstack_put_ref(&sp,closure);
     pwart_rstack_put_ref(&sp,code);
 }
@@ -182,7 +182,7 @@ static void wasm__ffix_new_c_callback(void *fp){
     void **userdata2=wa_malloc(sizeof(void *)*2);
     userdata2[0]=fn;
     userdata2[1]=user_data;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
+    void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__c2wasm_adapter,userdata2,code);
     pwart_rstack_put_ref(&sp,closure); 
     pwart_rstack_put_ref(&sp,code); 
-- 
2.43.0


From 282bfc54fcc9e7abf5de781386bc83ceeff0d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 49/66] fix: libffi: user data of a callback was freed by its
 first call

---
 pwart_syslib/libffi.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index 86e6d7c..2e89667 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -116,6 +116,8 @@ static void wasm__ffi_closure_alloc(void *fp){
     void *code=NULL;
     sp=fp;
     void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
+    /* holds the userdata2 allocated by ffi_prep_closure_loc, until the closure is freed. */
+    if(closure!=NULL)((ffi_closure *)closure)->user_data=NULL;
     pwart_rstack_put_ref(&sp,closure);
     pwart_rstack_put_ref(&sp,code);
 }
@@ -123,12 +125,12 @@ static void wasm__ffi_closure_free(void *fp){
     void *sp=fp;
     _wargref(closure)
     sp=fp;
+    wa_free(((ffi_closure *)closure)->user_data);
     ffi_closure_free(closure);
 }
 static void wasmcb__ffi_closurecb(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *fn2=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     pwart_rstack_put_ref(&sp,cif);
@@ -149,6 +151,8 @@ static void wasm__ffi_prep_closure_loc(void *fp){
     void **userdata2=wa_malloc(sizeof(void *)*2);
     userdata2[0]=fn;
     userdata2[1]=user_data;
+    wa_free(((ffi_closure *)closure)->user_data);
+    ((ffi_closure *)closure)->user_data=NULL;
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__ffi_closurecb,userdata2,codeloc);
     pwart_rstack_put_i32(&sp,stat);
 }
@@ -156,7 +160,6 @@ static void wasm__ffi_prep_closure_loc(void *fp){
 static void wasmcb__c2wasm_adapter(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *wasmfn=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     for(int i=0;i<cif->nargs;i++){
@@ -183,6 +186,7 @@ static void wasm__ffix_new_c_callback(void *fp){
     userdata2[0]=fn;
     userdata2[1]=user_data;
     void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
+    if(closure!=NULL)((ffi_closure *)closure)->user_data=NULL;
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__c2wasm_adapter,userdata2,code);
     pwart_rstack_put_ref(&sp,closure); 
     pwart_rstack_put_ref(&sp,code); 
@@ -192,6 +196,7 @@ static void wasm__ffix_del_c_callback(void *fp){
     void *sp=fp;
     _wargref(closure)
     sp=fp;
+    wa_free(((ffi_closure *)closure)->user_data);
     ffi_closure_free(closure);
 }
 
-- 
2.43.0


From fbd980a22e81bc1d4cd0ad0bef4088f764b80ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 50/66] fix: constant expressions overran the evaluation stack

---
 pwart/extfunc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 31014ed..67d27bc 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -513,10 +513,13 @@ static Type func_type_memoryfill={.params=types_ref_i32_i32_ref_i32,.results=typ
 static char *waexpr_run_const(ModuleCompiler *m, void *result) {
   int opcode=0;
   //const stack
-  uint64_t stack[16];
+  uint64_t stack[OPERAND_STACK_COUNT];
   void *sp=&stack;
   int eof=0;
   while(m->pc<=m->byte_count && !eof){
+    if(sp>=(void *)(stack+OPERAND_STACK_COUNT)){
+      return "operand stack overflow";
+    }
     opcode=m->bytes[m->pc];
     m->pc++;
     switch (opcode) {
-- 
2.43.0


From 8352bdf803760083f3df6296b3b5458cb4d5dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 51/66] fix: memory.fill with an i64 count

---
 pwart/opgen_mem.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 26a7ca7..941989d 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -451,6 +451,10 @@ static void opgen_GenMemoryFill(ModuleCompiler *m,int midx){
   sv2 = sv=m->stack+m->sp-2;    //n;
   sv = stackvalue_PushStackValueLike(m, sv2);
   sv2->jit_type=SVT_DUMMY;
+  if(sv->wasm_type==WVT_I64){
+    //XXX: we limit to use 32bit count now, which may be change in future
+    opgen_GenNumOp(m,0xa7);//i32.wrap_i64
+  }
 
   opgen_GenRefNull(m,0);
   opgen_GenI32Const(m,0);
-- 
2.43.0


From 308de36ea558b9c55605e59e77329c14ccc3b08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 52/66] fix: memory.size and memory.grow of i64-indexed
 memories

---
 pwart/def.h       |  1 +
 pwart/extfunc.c   | 40 +++++++++++++++++++++++++---------------
 pwart/modparser.c |  5 +++++
 pwart/opgen_mem.c | 10 ++++++++++
 4 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 3135835..368dce7 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -185,6 +185,7 @@ typedef struct ModuleCompiler {
     struct dynarr *globals;        // globals, type StackValue
 
     struct dynarr *functions;      //functions, type WasmFunction
+    struct dynarr *memory64;       //is the memory indexed by i64, type uint8_t
 
     struct pwart_symbol_resolver *import_resolver;
 
diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 67d27bc..5b9c8b9 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -308,34 +308,42 @@ static void insn_f64converti64s(double *fp){
 static void insn_f64converti64u(double *fp){
   *fp = (double)(*(uint64_t *)fp);
 }
-// keep argument aligned, to avoid effect from PWART_STACK_FLAGS_AUTO_ALIGN.
-// (i32 delta, i32 memory_index,ref runtime_context)
-static void insn_memorygrow(void *fp){
-  void *sp=fp;
-  uint32_t delta = pwart_rstack_get_i32(&sp);
-  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
-  RuntimeContext *m=pwart_rstack_get_ref(&sp);
+// return previous pages, or -1 if failed.
+static int64_t memory_grow(RuntimeContext *m,uint32_t index,uint64_t delta){
   Memory *mem=*dynarr_get(m->memories,Memory *,index);
   uint32_t prev_pages = mem->pages;
   if (prev_pages > mem->maximum || delta > mem->maximum - prev_pages) {
-    sp=fp;
-    pwart_rstack_put_i32(&sp,-1);
-    return;
+    return -1;
   }
   if(!mem->fixed && delta > 0){
     uint8_t *bytes = wa_realloc(mem->bytes, ((size_t)prev_pages + delta) * PAGE_SIZE);
     if(bytes==NULL){
-      sp=fp;
-      pwart_rstack_put_i32(&sp,-1);
-      return;
+      return -1;
     }
     mem->bytes = bytes;
     memset(bytes+(size_t)prev_pages*PAGE_SIZE,0,(size_t)delta*PAGE_SIZE);
   }
   mem->pages += delta;
+  return prev_pages;
+}
+// keep argument aligned, to avoid effect from PWART_STACK_FLAGS_AUTO_ALIGN.
+// (i32 delta, i32 memory_index,ref runtime_context)
+static void insn_memorygrow(void *fp){
+  void *sp=fp;
+  uint32_t delta = pwart_rstack_get_i32(&sp);
+  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
+  RuntimeContext *m=pwart_rstack_get_ref(&sp);
+  sp=fp;
+  pwart_rstack_put_i32(&sp,memory_grow(m,index,delta));
+}
+// the same, for memory indexed by i64. (i64 delta, ref runtime_context, i32 memory_index)
+static void insn_memorygrow64(void *fp){
+  void *sp=fp;
+  uint64_t delta = pwart_rstack_get_i64(&sp);
+  RuntimeContext *m=pwart_rstack_get_ref(&sp);
+  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
   sp=fp;
-  pwart_rstack_put_i32(&sp,prev_pages);
-  return;
+  pwart_rstack_put_i64(&sp,memory_grow(m,index,delta));
 }
 //get pwart version
 static void insn_version(uint32_t *fp){
@@ -471,6 +479,7 @@ static uint8_t types_f32_f32[] = {WVT_F32, WVT_F32, 0};
 static uint8_t types_f64_f64[] = {WVT_F64, WVT_F64, 0};
 
 static uint8_t types_i32_i32_ref[] = {WVT_I32, WVT_I32, WVT_REF,0};
+static uint8_t types_i64_ref_i32[] = {WVT_I64, WVT_REF, WVT_I32,0};
 
 static uint8_t types_ref_ref_i32[]={WVT_REF, WVT_REF,WVT_I32,0};
 
@@ -507,6 +516,7 @@ static Type func_type_i64_ret_f64 = {.params = types_i64, .results = types_f64};
 
 
 static Type func_type_i32_i32_ref_ret_i32 = {.params = types_i32_i32_ref, .results = types_i32};
+static Type func_type_i64_ref_i32_ret_i64 = {.params = types_i64_ref_i32, .results = types_i64};
 static Type func_type_ref_ref_i32_void={.params=types_ref_ref_i32,.results=types_void};
 static Type func_type_memoryfill={.params=types_ref_i32_i32_ref_i32,.results=types_void};
 
diff --git a/pwart/modparser.c b/pwart/modparser.c
index 5d4ef9d..3da68d3 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -43,6 +43,7 @@ static void parse_table_type(ModuleCompiler *m, uint32_t *pos,Table *table) {
 static void parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem) {
   uint32_t flags = read_LEB(m->bytes, pos, 32);
   uint32_t pages = read_LEB(m->bytes, pos, 32); // Initial size
+  *dynarr_push_type(&m->memory64,uint8_t) = (flags & 0x4) != 0;
   mem->initial = pages;
   mem->pages = pages;
   // Limit the maximum to 2GB
@@ -192,6 +193,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     dynarr_init(&m->context->tables,sizeof(Table *));
     dynarr_init(&m->context->own_globals,sizeof(uint8_t));
     dynarr_init(&m->functions,sizeof(WasmFunction));
+    dynarr_init(&m->memory64,sizeof(uint8_t));
     m->context->resolver=m->import_resolver;
     m->context->start_function = 0xffffffff;
 
@@ -710,6 +712,9 @@ static char *free_module(ModuleCompiler *m){
     if(m->functions!=NULL){
         dynarr_free(&m->functions);
     }
+    if(m->memory64!=NULL){
+        dynarr_free(&m->memory64);
+    }
     if(m->types_pool.chunks!=NULL){
         pool_free(&m->types_pool);
     }
diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 941989d..a6439a6 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -145,8 +145,18 @@ static void opgen_GenCurrentMemory(ModuleCompiler *m,uint32_t index) {
   sv->val.op = SLJIT_MEM1(a);
   sv->val.opw = 0;
   pwart_EmitStackValueLoadReg(m, sv);
+  if(*dynarr_get(m->memory64,uint8_t,index)){
+    opgen_GenNumOp(m,WASMOPC_i64_extend_i32_u);
+  }
 }
 static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
+  if(*dynarr_get(m->memory64,uint8_t,index)){
+    opgen_GenRefConst(m,m->context);
+    opgen_GenI32Const(m,index);
+    pwart_EmitCallFunc(m, &func_type_i64_ref_i32_ret_i64, SLJIT_IMM,
+                       (sljit_sw)&insn_memorygrow64);
+    return;
+  }
   opgen_GenI32Const(m,index);
   opgen_GenRefConst(m,m->context);
   pwart_EmitCallFunc(m, &func_type_i32_i32_ref_ret_i32, SLJIT_IMM,
-- 
2.43.0


From dab4b8bece788c66017bba3c59a3263ad9455341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 53/66] fix: sljit_set_context refused float return types

---
 sljit/sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitLir.c b/sljit/sljit_src/sljitLir.c
index 09d1ae4..a7eabed 100644
--- a/sljit/sljit_src/sljitLir.c
+++ b/sljit/sljit_src/sljitLir.c
@@ -1516,7 +1516,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_set_context(struct sljit_compi
 	CHECK_ARGUMENT(real_vsaveds >= 0 && real_vsaveds <= SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(real_vscratches + real_vsaveds <= SLJIT_NUMBER_OF_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(local_size >= 0 && local_size <= SLJIT_MAX_LOCAL_SIZE);
-	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) < SLJIT_ARG_TYPE_F64);
+	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) <= SLJIT_ARG_TYPE_F32);
 	CHECK_ARGUMENT(function_check_arguments(arg_types, real_scratches,
 		(options & SLJIT_ENTER_REG_ARG) ? 0 : real_saveds, real_fscratches));
 
-- 
2.43.0


From e9174a06c65ecb93410ca26ce3cfd3f3e6af7e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 54/66] fix: an imported memory or table smaller than the
 declared minimum is refused

---
 pwart/modparser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 3da68d3..bf3404d 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -358,7 +358,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 case PWART_KIND_TABLE:
                 {
                     Table *tval = val;
-                    if(info.tab.initial>tval->maximum){
+                    if(info.tab.initial>tval->size){
                         return "Imported table is not large enough";
                     }
                     *dynarr_push_type(&m->context->tables,Table *)=tval;
@@ -367,7 +367,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 case PWART_KIND_MEMORY:
                 {
                     Memory *mval = val;
-                    if(info.mem.initial>mval->maximum){
+                    if(info.mem.initial>mval->pages){
                         return "Imported memory is not large enough";
                     }
                     *dynarr_push_type(&m->context->memories,Memory *)=mval;
-- 
2.43.0


From e46f6fe0fa9069fae1ca8aead5f98f568b677036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 55/66] fix: memory refused during code generation is reported
 instead of leaving null functions

---
 pwart/wagen.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index b7a4bbe..66d53bd 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -322,6 +322,9 @@ static char *pwart_GenCode(ModuleCompiler *m) {
   #endif
 
   m->jitc = sljit_create_compiler(NULL);
+  if(m->jitc==NULL){
+    return "out of memory";
+  }
 #if DEBUG_BUILD
   m->jitc->verbose = stdout;
 #endif
@@ -405,6 +408,9 @@ static char *pwart_EmitFunction(ModuleCompiler *m, WasmFunction *func) {
   sljit_free_compiler(m->jitc);
   m->jitc=NULL;
   dynarr_free(&m->locals);
+  if(code==NULL){
+    return "code generation failed";
+  }
   func->func_ptr = code;
   return NULL;
 }
-- 
2.43.0


From 32665711f7f3d25367c83c5b4aa1744f0014f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 56/66] fix: no access behind a null pointer when executable
 memory is refused

---
 sljit/sljit_src/sljitLir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitLir.c b/sljit/sljit_src/sljitLir.c
index a7eabed..af19299 100644
--- a/sljit/sljit_src/sljitLir.c
+++ b/sljit/sljit_src/sljitLir.c
@@ -752,7 +752,8 @@ static SLJIT_INLINE void* allocate_executable_memory(sljit_uw size, sljit_s32 op
 
 	if (SLJIT_LIKELY(!(options & SLJIT_GENERATE_CODE_BUFFER))) {
 		code = SLJIT_MALLOC_EXEC(size, exec_allocator_data);
-		*executable_offset = SLJIT_EXEC_OFFSET(code);
+		if (code != NULL)
+			*executable_offset = SLJIT_EXEC_OFFSET(code);
 		return code;
 	}
 
-- 
2.43.0


From 8ad67526acd9a77c6d386e11f85f83d989ca89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 57/66] fix: check the instruction buffer of the constant that
 abs and neg use

---
 sljit/sljit_src/sljitNativeX86_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 6a291a5..0d59d82 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -3314,6 +3314,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop1(struct sljit_compiler *compil
 		FAIL_IF(emit_groupf(compiler, PCMPEQD_x_xm | EX86_PREF_66 | EX86_SSE2, dst_r, dst_r, 0));
 
 		inst = emit_x86_instruction(compiler, 2 | EX86_PREF_66 | EX86_SSE2_OP2, 0, 0, dst_r, 0);
+		FAIL_IF(!inst);
 		inst[0] = GROUP_0F;
 		/* Same as PSRLD_x / PSRLQ_x */
 		inst[1] = (op & SLJIT_32) ? PSLLD_x_i8 : PSLLQ_x_i8;
-- 
2.43.0


From d20fbbc53d0942357addb7c6b572ddc14b99c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 58/66] fix: 256 bit vector operations on unaligned memory used
 only half of it

---
 sljit/sljit_src/sljitNativeX86_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 0d59d82..8859411 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4875,6 +4875,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 	if (reg_size == 5) {
 		if (!(cpu_feature_list & CPU_FEATURE_AVX2))
 			return SLJIT_ERR_UNSUPPORTED;
+		use_vex = 1;
 	} else if (reg_size != 4)
 		return SLJIT_ERR_UNSUPPORTED;
 
@@ -4915,7 +4916,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 	if ((src2 & SLJIT_MEM) && SLJIT_SIMD_GET_ELEM2_SIZE(type) < reg_size) {
 		mov_op = ((type & SLJIT_SIMD_FLOAT) ? (MOVUPS_x_xm | (elem_size == 3 ? EX86_PREF_66 : 0)) : (MOVDQU_x_xm | EX86_PREF_F3)) | EX86_SSE2;
 		if (use_vex)
-			FAIL_IF(emit_vex_instruction(compiler, mov_op, TMP_FREG, 0, src2, src2w));
+			FAIL_IF(emit_vex_instruction(compiler, mov_op | (reg_size == 5 ? VEX_256 : 0), TMP_FREG, 0, src2, src2w));
 		else
 			FAIL_IF(emit_groupf(compiler, mov_op, TMP_FREG, src2, src2w));
 
-- 
2.43.0


From 6faf97affe14a0f6bd0e9d20dabcd55fd0ff141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 59/66] fix: extracting the signs of 16 bit lanes modified the
 status flags

---
 sljit/sljit_src/sljitNativeX86_common.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 8859411..18ada12 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4750,7 +4750,11 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	sljit_s32 use_vex = (cpu_feature_list & CPU_FEATURE_AVX) && (compiler->options & SLJIT_ENTER_USE_VEX);
 	sljit_s32 dst_r;
 	sljit_uw op;
-	sljit_u8 *inst;
+#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
+	sljit_s32 opcode3 = TMP_REG1;
+#else /* !SLJIT_CONFIG_X86_32 */
+	sljit_s32 opcode3 = SLJIT_S0;
+#endif /* SLJIT_CONFIG_X86_32 */
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_simd_sign(compiler, type, vreg, dst, dstw));
@@ -4778,6 +4782,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 			else
 				FAIL_IF(emit_groupf(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2, TMP_FREG, vreg, 0));
 			vreg = TMP_FREG;
+
+			/* Drops the lower half without modifying the flags. */
+			SLJIT_ASSERT(reg_map[opcode3] == 3);
+			if (use_vex)
+				FAIL_IF(emit_vex_instruction(compiler, PSRLDQ_x | EX86_PREF_66 | EX86_SSE2_OP2 | VEX_SSE2_OPV, opcode3, vreg, vreg, 0));
+			else
+				FAIL_IF(emit_groupf(compiler, PSRLDQ_x | EX86_PREF_66 | EX86_SSE2_OP2, opcode3, vreg, 0));
+			FAIL_IF(emit_byte(compiler, 8));
 			break;
 		case 2:
 			op = EX86_SSE2_OP2;
@@ -4796,12 +4808,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 		compiler->mode32 = type & SLJIT_32;
 #endif /* SLJIT_CONFIG_X86_64 */
 
-		if (elem_size == 1) {
-			inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_IMM, 8, dst_r, 0);
-			FAIL_IF(!inst);
-			inst[1] |= SHR;
-		}
-
 		if (dst_r == TMP_REG1)
 			return emit_mov(compiler, dst, dstw, TMP_REG1, 0);
 
-- 
2.43.0


From 063aff1e6669763216739b681e3bfdd0862149d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 60/66] fix: 64 bit immediates moved into a vector lane were
 cut to 32 bits

---
 sljit/sljit_src/sljitNativeX86_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 18ada12..3fa96ce 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4321,6 +4321,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	}
 
 	if (srcdst == SLJIT_IMM) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+		compiler->mode32 = (elem_size < 3);
+#endif /* SLJIT_CONFIG_X86_64 */
 		EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_IMM, srcdstw);
 		srcdst = TMP_REG1;
 		srcdstw = 0;
-- 
2.43.0


From 551d3ae49ea2c54d953dda3c0c4cab1260b8c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 61/66] fix: adding the address of a label modified the status
 flags

---
 sljit/sljit_src/sljitNativeX86_common.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 3fa96ce..c0997d1 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -5286,10 +5286,18 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_op_addr(struct sljit_comp
 
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 	if (op == SLJIT_ADD_ABS_ADDR) {
-		inst = emit_x86_instruction(compiler, 1, reg, 0, dst, dstw);
+		/* Must not modify the flags. */
+		if (dst & SLJIT_MEM) {
+			PTR_FAIL_IF(emit_mov(compiler, TMP_REG2, 0, dst, dstw));
+			inst = emit_x86_instruction(compiler, 1, TMP_REG1, 0, SLJIT_MEM2(TMP_REG1, TMP_REG2), 0);
+		} else
+			inst = emit_x86_instruction(compiler, 1, dst, 0, SLJIT_MEM2(dst, TMP_REG2), 0);
+
 		PTR_FAIL_IF(!inst);
-		*inst = ADD_rm_r;
-	} else if (dst & SLJIT_MEM)
+		*inst = LEA_r_m;
+	}
+
+	if (dst & SLJIT_MEM)
 		PTR_FAIL_IF(emit_mov(compiler, dst, dstw, TMP_REG1, 0));
 #endif /* SLJIT_CONFIG_X86_64 */
 
-- 
2.43.0


From 4fd78f2d8695413e5c8ee6c759b2189345f3fcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 62/66] fix: the sixteenth pending floating point value was put
 into a register that does not exist

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 6f4c7d2..f8d2107 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -606,7 +606,7 @@ static sljit_s32 pwart_GetFreeReg(ModuleCompiler *m, sljit_s32 regtype, int upst
     }
   } else {
     for (fr = SLJIT_FR0;
-         fr <= SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
+         fr < SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
       if (m->float_registers_status[fr - SLJIT_FR0] & RS_RESERVED) {
         continue;
       }
-- 
2.43.0


From 2810af702d88b0e716a2950a5b8d1e55551be681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 63/66] fix: a host module is removed before its on_detached is
 called, which may change the namespace

---
 pwart/namespace.c | 57 +++++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 24d085c..677d3cf 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -59,22 +59,27 @@ extern pwart_namespace pwart_namespace_new(){
     return ns;
 }
 
+//remove the module before the callback is called, which may change the namespace, so *m must not be used after that.
+static char *namespace_DetachModule(struct pwart_named_module *m){
+    struct pwart_named_module old=*m;
+    if(old.type==PWART_MODULE_TYPE_WASM_MODULE){
+        ReturnIfErr(pwart_free_module_state(old.val.wasm));
+    }
+    m->type=PWART_MODULE_TYPE_NULL;
+    m->name=NULL;
+    wa_free((void *)old.name);
+    if(old.type==PWART_MODULE_TYPE_HOST_MODULE && old.val.host->on_detached!=NULL){
+        old.val.host->on_detached(old.val.host);
+    }
+    return NULL;
+}
+
 extern char *pwart_namespace_delete(pwart_namespace ns){
     Namespace *n=(Namespace *)ns;
     int i=0;
     for(i=0;i<n->mods->len;i++){
         struct pwart_named_module *m=dynarr_get(n->mods,struct pwart_named_module,i);
-        switch(m->type){
-            case PWART_MODULE_TYPE_HOST_MODULE:
-                if(m->val.host->on_detached!=NULL){
-                    m->val.host->on_detached(m->val.host);
-                }
-                break;
-            case PWART_MODULE_TYPE_WASM_MODULE:
-                ReturnIfErr(pwart_free_module_state(m->val.wasm));
-                break;
-        }
-        if(m->type!=0)wa_free((void *)m->name);
+        if(m->type!=0)ReturnIfErr(namespace_DetachModule(m));
     }
     dynarr_free(&n->mods);
     if(n->nsmeta!=NULL){
@@ -100,19 +105,7 @@ extern struct pwart_named_module *pwart_namespace_find_module(pwart_namespace ns
 extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
     struct pwart_named_module *m=pwart_namespace_find_module(ns,name);
     if(m!=NULL){
-        switch(m->type){
-            case PWART_MODULE_TYPE_HOST_MODULE:
-                if(m->val.host->on_detached!=NULL){
-                    m->val.host->on_detached(m->val.host);
-                }
-                break;
-            case PWART_MODULE_TYPE_WASM_MODULE:
-                ReturnIfErr(pwart_free_module_state(m->val.wasm));
-                break;
-        }
-        m->type=PWART_MODULE_TYPE_NULL;
-        wa_free((void *)m->name);
-        m->name=NULL;
+        return namespace_DetachModule(m);
     }
     return NULL;
 }
@@ -126,15 +119,15 @@ extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named
     strcpy(name,mod->name);
     m=pwart_namespace_find_module(ns,mod->name);
     if(m!=NULL){
-        pwart_namespace_remove_module(ns,m->name);
-    }else{
-        //reuse the place of removed module.
-        for(int i=0;i<n->mods->len && m==NULL;i++){
-            m=dynarr_get(n->mods,struct pwart_named_module,i);
-            if(m->type!=0)m=NULL;
-        }
-        if(m==NULL)m=dynarr_push_type(&n->mods,struct pwart_named_module);
+        pwart_namespace_remove_module(ns,name);
+        m=NULL;
+    }
+    //reuse the place of removed module.
+    for(int i=0;i<n->mods->len && m==NULL;i++){
+        m=dynarr_get(n->mods,struct pwart_named_module,i);
+        if(m->type!=0)m=NULL;
     }
+    if(m==NULL)m=dynarr_push_type(&n->mods,struct pwart_named_module);
     memmove(m,mod,sizeof(struct pwart_named_module));
     m->name=name;
     switch(m->type){
-- 
2.43.0


From 255b7ea27b956bd7fb4d9a8f2e1f8168b29163cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 64/66] fix: a custom section named dylink was read past its
 end

---
 pwart/modparser.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index bf3404d..3c626d4 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -228,10 +228,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("  Section name '%s'\n", name);
             if (strncmp(name, "dylink", 7) == 0) {
                 // https://github.com/WebAssembly/tool-conventions/blob/master/DynamicLinking.md
-                // TODO: make use of these
-                uint32_t memorysize = read_LEB(bytes, &pos, 32);
-                uint32_t tablesize = read_LEB(bytes, &pos, 32);
-                (void)memorysize; (void)tablesize;
+                // TODO: make use of the memory size and the table size. The content
+                // may be anything, reading must not go past end_pos.
             } else {
                 wa_debug("Ignoring unknown custom section '%s'\n", name);
             }
-- 
2.43.0


From 33e79d2e3bb91c4c01cddb63591aca4de779bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 65/66] fix: a table for which there is no memory is refused

---
 pwart/modparser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 3c626d4..2bf9e19 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -412,6 +412,9 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 wa_debug("create new table at %p\n",table);
                 parse_table_type(m, &pos,table);
                 table->entries = wa_calloc(table->size*sizeof(void *));
+                if(table->entries==NULL && table->size>0){
+                    return "out of memory";
+                }
                 *dynarr_push_type(&m->context->tables,Table *)=table;
             }
         }
-- 
2.43.0


From f16119a42b225861c4b79ae7c82bd982ce778418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:54 +0000
Subject: [PATCH 66/66] fix: addresses between 2 GiB and 4 GiB are 32 bit
 immediates as well

mov r32, imm32 extends with zeros, so generate_mov_addr_code uses it for every
address up to 0xffffffff; the debug assertion refused those above 0x7fffffff.
---
 sljit/sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index c0997d1..8cbec8e 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -747,7 +747,7 @@ static void generate_jump_or_mov_addr(struct sljit_jump *jump, sljit_sw executab
 			addr -= (sljit_uw)SLJIT_ADD_EXEC_OFFSET((sljit_u8*)jump_addr, executable_offset);
 			SLJIT_ASSERT((sljit_sw)addr <= HALFWORD_MAX && (sljit_sw)addr >= HALFWORD_MIN);
 		} else {
-			SLJIT_ASSERT(addr <= HALFWORD_MAX);
+			SLJIT_ASSERT(addr <= 0xffffffff);
 		}
 		sljit_unaligned_store_s32((void*)(jump_addr - sizeof(sljit_s32)), (sljit_s32)addr);
 #endif /* !SLJIT_CONFIG_X86_32 */
-- 
2.43.0

