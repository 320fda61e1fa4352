----------------------------------- MODULE Lir ----------------------------------
(* The machine the low-level compiler's documentation (sljitLir.h) describes:       *)
(* registers, the zero and the variable status flag, byte-addressed memory, stack   *)
(* frames with locals, labels, rewritable jumps and constants.                      *)
(* A word is 8 bytes, least significant first.  A byte is 0..255, or open:          *)
(*   -1        undefined (documentation leaves it open)                             *)
(*   -11..-28  byte of a NaN with open payload (see IEEE)                           *)
(*   over 255  part of an address whose number is not fixed: byte 8 is 300+r for     *)
(*             an address inside the locals of frame region r, 600+k in read-only buffer k,              *)
(*             700 for a code address, 701 the caller's;                                              *)
(*             bytes 1..4 hold the offset or the instruction index, plus 1000          *)
EXTENDS IEEE, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
NREG == 13
NFREG == 15
UW == <<-1, -1, -1, -1, -1, -1, -1, -1>>
U4 == <<-1, -1, -1, -1>>
Un(n) == IF n = 8 THEN UW ELSE IF n = 4 THEN U4 ELSE TLCEval([i \in 1..n |-> -1])
Known(v) == \A i \in 1..Len(v) : v[i] >= 0 /\ v[i] < 256
NaNSym(v) == (Len(v) = 4 /\ v = <<-11, -12, -13, -14>>) \/ (Len(v) = 8 /\ v = <<-21, -22, -23, -24, -25, -26, -27, -28>>)
Undefd(v) == ~NaNSym(v) /\ ~Known(v)
Named(b, mark) == <<1000 + b[1], 1000 + b[2], 1000 + b[3], 1000 + b[4], 1000, 1000, 1000, mark>>
IsNamed(a) == \A i \in 1..8 : a[i] > 255
Number(a) == TLCEval([i \in 1..4 |-> a[i] - 1000])
CodeAddr(p) == Named(FromNat(p, 4), 700)
LocalAddr(r, off) == Named(FromNat(off, 4), 300 + r)

VARIABLES
  pid,      \* case
  st,       \* "env" between actions, "run", "done" a run ended, "ok", "bad", "undet"
  pc,       \* next instruction
  R, F,     \* integer and float registers
  zf, vf, vt,   \* zero flag, variable flag and its type; -1 open
  mem,      \* memory regions: 1..3 shared, later ones the locals of frames
  ctx,      \* context of the running function
  frs,      \* callers: what returns restore
  arg,      \* values passed by the call just made
  con, jt,  \* current values of constants, current targets of jumps
  calls,    \* host calls made in this run
  act       \* next action of the case
mvars == <<pid, st, pc, R, F, zf, vf, vt, mem, ctx, frs, arg, con, jt, calls, act>>

C == Cases[pid]
I == C.ins[pc]
Lab(l) == C.lab[l + 1]           \* instruction index of label l
NoCtx == [s |-> 0, v |-> 0, r |-> 0, rt |-> "", conv |-> 0, keep |-> 0]

---------------------------------------------------------------------------------
(* operands *)
\* address word -> <<region, offset>>, a negative region is a read-only buffer, <<0, 0>> if it is no address of the machine
Locate(a) ==
  IF IsNamed(a) THEN (IF a[8] < 600 THEN LET o == Number(a) IN <<a[8] - 300, o[1] + 256 * o[2] + 65536 * o[3]>>
                           ELSE IF a[8] < 700 THEN LET o == Number(a) IN <<600 - a[8], o[1] + 256 * o[2] + 65536 * o[3]>> ELSE <<0, 0>>)
  ELSE IF ~Known(a) THEN <<0, 0>>
  ELSE LET Off(r) == Sub(a, C.base[r])
           In(r) == LET o == Off(r) IN o[3] = 0 /\ o[4] = 0 /\ o[5] = 0 /\ o[6] = 0 /\ o[7] = 0 /\ o[8] = 0
                                       /\ o[1] + 256 * o[2] < Len(mem[r]) IN
       IF In(1) THEN LET o == Off(1) IN <<1, o[1] + 256 * o[2]>>
       ELSE IF In(2) THEN LET o == Off(2) IN <<2, o[1] + 256 * o[2]>>
       ELSE IF In(3) THEN LET o == Off(3) IN <<3, o[1] + 256 * o[2]>>
       ELSE <<0, 0>>
\* signed sum of a word and an offset word, keeping the mark of a symbolic address
Plus(a, b) == IF IsNamed(a) /\ Known(b) THEN Named(Add(Number(a), SubSeq(b, 1, 4)), a[8])
              ELSE IF IsNamed(b) /\ Known(a) THEN Named(Add(Number(b), SubSeq(a, 1, 4)), b[8])
              ELSE IF Known(a) /\ Known(b) THEN Add(a, b) ELSE UW
ShiftX(a, s) == IF s = 0 THEN a ELSE IF Known(a) THEN Shl(a, s) ELSE UW
\* memory operand -> <<region, offset>>
Place(o) ==
  IF o[1] = "s" THEN <<ctx.r, o[2]>>
  ELSE Locate(TLCEval(Plus(Plus(IF o[2] = 0 THEN Zero(8) ELSE R[o[2]], IF o[3] = 0 THEN Zero(8) ELSE ShiftX(R[o[3]], o[4])), o[5])))
InMem(l, n) == l[1] > 0 /\ l[1] <= Len(mem) /\ l[2] + n <= Len(mem[l[1]])
\* the contents of the read-only buffers follow the constants
Buffer(l) == con[C.nc - l[1]]
InBuf(l, n) == l[1] < 0 /\ l[2] + n <= Len(Buffer(l))
Load(l, n) == IF InMem(l, n) THEN SubSeq(mem[l[1]], l[2] + 1, l[2] + n)
              ELSE IF InBuf(l, n) THEN SubSeq(Buffer(l), l[2] + 1, l[2] + n) ELSE Un(n)
IsM(o) == o[1] \in {"m", "s"}
\* the low n bytes of an operand
Val(o, n) == CASE o[1] = "r" -> SubSeq(R[o[2]], 1, n)
               [] o[1] = "i" -> SubSeq(o[2], 1, n)
               [] o[1] = "f" -> SubSeq(F[o[2]], 1, n)
               [] OTHER -> Load(Place(o), n)
Wide(v) == IF Len(v) = 8 THEN v ELSE v \o U4
\* is a memory operand inside the machine's memory?
Valid(o, n) == ~IsM(o) \/ (LET l == Place(o) IN InMem(l, n) \/ InBuf(l, n))
MemPut(l, v) == [mem EXCEPT ![l[1]] = [i \in 1..Len(@) |-> IF i > l[2] /\ i <= l[2] + Len(v) THEN v[i - l[2]] ELSE @[i]]]
\* write v to an operand: n bytes to memory, the word w to a register
PutI(o, v, w) == CASE o[1] = "r" -> R' = [R EXCEPT ![o[2]] = w] /\ UNCHANGED mem
                   [] o[1] = "n" -> UNCHANGED <<R, mem>>
                   [] OTHER -> mem' = MemPut(Place(o), v) /\ UNCHANGED R
PutF(o, v) == IF o[1] = "f" THEN F' = [F EXCEPT ![o[2]] = Wide(v)] /\ UNCHANGED mem
              ELSE mem' = MemPut(Place(o), v) /\ UNCHANGED F
Flags(z, v, t) == zf' = z /\ vf' = v /\ vt' = t
KeepFlags == UNCHANGED <<zf, vf, vt>>
NoFlags == Flags(-1, -1, -1)
BoolN(b) == IF b THEN 1 ELSE 0
\* value of a condition: 0, 1 or -1 (open)
Cond(t) == IF t <= 1 THEN (IF zf < 0 THEN -1 ELSE IF t = 0 THEN zf ELSE 1 - zf)
           ELSE IF vt # t - (t % 2) \/ vf < 0 THEN -1 ELSE IF t % 2 = 0 THEN vf ELSE 1 - vf

---------------------------------------------------------------------------------
(* integer operations *)
ExtTo(p, v) == CASE p \in {"mov_u8", "mov_u16", "mov_u32"} -> ZeroExt(v, 8)
                 [] p \in {"mov_s8", "mov_s16", "mov_s32"} -> SignExt(v, 8)
                 [] OTHER -> v
MovN(p, w) == CASE p \in {"mov_u8", "mov_s8"} -> 1 [] p \in {"mov_u16", "mov_s16"} -> 2
                [] p \in {"mov_u32", "mov_s32"} -> 4 [] OTHER -> w
IsMov(p) == p \in {"mov", "mov_u8", "mov_s8", "mov_u16", "mov_s16", "mov_u32", "mov_s32", "mov_p"}
\* the word a register holds after a move of the n-byte value v
MovWord(p, w, v) ==
  IF p \in {"mov", "mov_p"} THEN (IF w = 8 THEN v ELSE v \o U4)
  ELSE IF ~Known(v) THEN UW
  ELSE LET x == ExtTo(p, v) IN IF w = 8 THEN x ELSE SubSeq(x, 1, 4) \o U4
Op1N(p, w) == IF IsMov(p) THEN MovN(p, w)
              ELSE CASE p \in {"rev_u16", "rev_s16"} -> 2 [] p \in {"rev_u32", "rev_s32"} -> 4 [] OTHER -> w
Op1V(p, w, v) ==      \* clz, ctz, byte reversals of the n-byte v: <<bytes for memory, word for a register>>
  IF ~Known(v) THEN <<Un(Op1N(p, w)), UW>>
  ELSE CASE p = "clz" -> LET x == FromNat(Clz(v), w) IN <<x, Wide(x)>>
         [] p = "ctz" -> LET x == FromNat(Ctz(v), w) IN <<x, Wide(x)>>
         [] OTHER -> LET x == Reverse(v)
                         y == IF p \in {"rev_s16", "rev_s32"} THEN SignExt(x, w) ELSE ZeroExt(x, w) IN <<x, Wide(y)>>

OvAdd(a, b, r) == Neg1(a) = Neg1(b) /\ Neg1(r) # Neg1(a)
OvSub(a, b, r) == Neg1(a) # Neg1(b) /\ Neg1(r) # Neg1(a)
CarryOut(a, b, c) == LET n == Len(a) IN AddC(ZeroExt(a, n + 1), ZeroExt(b, n + 1), c)[n + 1] > 0
\* borrow of a - b - c
Borrow(a, b, c) == IF c = 0 THEN LtU(a, b) ELSE ~LtU(b, a)
ShAmt(b, n) == b[1] % (8 * n)
Big(b, n) == \E i \in 2..Len(b) : b[i] # 0 \/ b[1] >= 8 * n
MulOv(a, b) == LET n == Len(a)  x == MulN(SignExt(a, 2 * n), SignExt(b, 2 * n), 2 * n) IN x # SignExt(SubSeq(x, 1, n), 2 * n)
\* result of a two operand operation; imm: the second operand is an immediate; c: carry flag
Op2V(p, a, b, imm, c) ==
  LET n == Len(a)  k == ShAmt(b, n) IN
  IF ~Known(a) \/ ~Known(b) THEN Un(n)
  ELSE CASE p = "add" -> Add(a, b) [] p = "sub" -> Sub(a, b)
         [] p = "addc" -> IF c < 0 THEN Un(n) ELSE AddC(a, b, c)
         [] p = "subc" -> IF c < 0 THEN Un(n) ELSE AddC(a, NotW(b), 1 - c)
         [] p = "mul" -> Mul(a, b)
         [] p = "and" -> AndW(a, b) [] p = "or" -> OrW(a, b) [] p = "xor" -> XorW(a, b)
         [] p \in {"shl", "lshr", "ashr"} /\ ~imm /\ Big(b, n) -> Un(n)
         [] p \in {"shl", "mshl"} -> Shl(a, k)
         [] p \in {"lshr", "mlshr"} -> ShrU(a, k)
         [] p \in {"ashr", "mashr"} -> ShrS(a, k)
         [] p = "rotl" -> Rotl(a, k)
         [] p = "rotr" -> Rotl(a, (8 * n - k) % (8 * n))
\* the variable flag of type t after the operation
VarFlag(p, t, a, b, r, c) ==
  IF t < 0 \/ ~Known(r) THEN -1
  ELSE CASE p = "add" /\ t = 10 -> BoolN(OvAdd(a, b, r))
         [] p = "add" /\ t = 12 -> BoolN(CarryOut(a, b, 0))
         [] p = "addc" /\ t = 12 -> BoolN(CarryOut(a, b, c))
         [] p = "sub" /\ t = 10 -> BoolN(OvSub(a, b, r))
         [] p = "sub" /\ t = 12 -> BoolN(Borrow(a, b, 0))
         [] p = "subc" /\ t = 12 -> BoolN(Borrow(a, b, c))
         [] p = "sub" /\ t = 2 -> BoolN(LtU(a, b))
         [] p = "sub" /\ t = 4 -> BoolN(LtU(b, a))
         [] p = "sub" /\ t = 6 -> BoolN(LtS(a, b))
         [] p = "sub" /\ t = 8 -> BoolN(LtS(b, a))
         [] p = "mul" /\ t = 10 -> BoolN(MulOv(a, b))
         [] OTHER -> -1
ZeroOf(z, r) == IF z = 0 \/ ~Known(r) THEN -1 ELSE BoolN(IsZero(r))
Carry == IF vt = 12 THEN vf ELSE -1
\* integer comparison type
ICmpT(t, a, b) == CASE t = 0 -> a = b [] t = 1 -> a # b [] t = 2 -> LtU(a, b) [] t = 3 -> ~LtU(a, b)
                    [] t = 4 -> LtU(b, a) [] t = 5 -> ~LtU(b, a) [] t = 6 -> LtS(a, b) [] t = 7 -> ~LtS(a, b)
                    [] t = 8 -> LtS(b, a) [] t = 9 -> ~LtS(b, a)
                    [] t = 10 -> OvSub(a, b, Sub(a, b)) [] t = 11 -> ~OvSub(a, b, Sub(a, b))
                    [] t = 12 -> LtU(a, b) [] t = 13 -> ~LtU(a, b)
\* float comparison type: 0, 1, -1 when the basic types meet an unordered pair
FCmpT(t, a, b) ==
  LET un == IsNaN(a) \/ IsNaN(b)  e == FEq(a, b)  lt == FLt(a, b)  gt == FLt(b, a) IN
  IF Undefd(a) \/ Undefd(b) THEN -1
  ELSE CASE t \in 16..21 -> IF un THEN -1 ELSE
                 BoolN(CASE t = 16 -> e [] t = 17 -> ~e [] t = 18 -> lt [] t = 19 -> ~lt [] t = 20 -> gt [] t = 21 -> ~gt)
         [] t = 22 -> BoolN(un) [] t = 23 -> BoolN(~un)
         [] t = 24 -> BoolN(e) [] t = 25 -> BoolN(~e)
         [] t = 26 -> BoolN(lt) [] t = 27 -> BoolN(~lt)
         [] t = 28 -> BoolN(gt) [] t = 29 -> BoolN(~gt)
         [] t = 30 -> BoolN(un \/ e) [] t = 31 -> BoolN(~un /\ ~e)
         [] t = 32 -> BoolN(un \/ lt) [] t = 33 -> BoolN(~un /\ ~lt)
         [] t = 34 -> BoolN(un \/ gt) [] t = 35 -> BoolN(~un /\ ~gt)

---------------------------------------------------------------------------------
(* float operations: open operands give open results *)
FOp(p, a, b) == IF Undefd(a) \/ Undefd(b) THEN Un(Len(a))
                ELSE CASE p = "add" -> FAdd(a, b) [] p = "sub" -> FSub(a, b) [] p = "mul" -> FMul(a, b) [] p = "div" -> FDiv(a, b)
                       [] p = "copysign" -> IF IsSym(b) THEN (IF IsSym(a) THEN a ELSE Un(Len(a))) ELSE FCopysign(a, b)
ToInt(a, n) == IF Undefd(a) \/ IsSym(a) \/ IsNaN(a) \/ IsInf(a) THEN Un(n) ELSE IF TruncFits(a, n, TRUE) THEN TruncTo(a, n) ELSE Un(n)

---------------------------------------------------------------------------------
Next1 == pc' = pc + 1
Fix(xs) == UNCHANGED xs
Rest == UNCHANGED <<pid, st, ctx, frs, arg, con, jt, calls, act>>
Fin == Next1 /\ Rest
\* the specification leaves open what follows
Stop == st' = "undet" /\ PrintT(<<"undet", C.id, pc>>) /\ UNCHANGED <<pid, pc, R, F, zf, vf, vt, mem, ctx, frs, arg, con, jt, calls, act>>
Jump(c, j) == IF c < 0 THEN Stop
              ELSE /\ pc' = (IF c = 1 THEN Lab(jt[j + 1]) ELSE pc + 1) /\ Rest
                   /\ zf' = zf /\ vf' = (IF vt = 12 THEN -1 ELSE vf) /\ vt' = vt /\ Fix(<<R, F, mem>>)

Op0 ==
  LET a == SubSeq(R[1], 1, I.w)  b == SubSeq(R[2], 1, I.w)  n == I.w
      ok == Known(a) /\ Known(b)
      dv == I.p \in {"div_uw", "div_sw", "divmod_uw", "divmod_sw"}
      sg == I.p \in {"div_sw", "divmod_sw"}
      r == IF sg THEN <<DivS(a, b), RemS(a, b)>> ELSE DivModU(a, b)
      m == IF I.p = "lmul_uw" THEN MulN(ZeroExt(a, 16), ZeroExt(b, 16), 16) ELSE MulN(SignExt(a, 16), SignExt(b, 16), 16) IN
  IF ~ok \/ (dv /\ (IsZero(b) \/ (sg /\ a = MinInt(n) /\ b = Ones(n)))) THEN Stop
  ELSE /\ Fin /\ NoFlags /\ Fix(<<F, mem>>)
       /\ R' = IF I.p \in {"lmul_uw", "lmul_sw"} THEN [R EXCEPT ![1] = SubSeq(m, 1, 8), ![2] = SubSeq(m, 9, 16)]
               ELSE IF I.p \in {"div_uw", "div_sw"} THEN [R EXCEPT ![1] = Wide(r[1])]
               ELSE [R EXCEPT ![1] = Wide(r[1]), ![2] = Wide(r[2])]
Op1 ==
  LET n == Op1N(I.p, I.w)  v == TLCEval(Val(I.a, n)) IN
  IF ~Valid(I.a, n) \/ ~Valid(I.d, n) THEN Stop
  ELSE IF IsMov(I.p) THEN Fin /\ KeepFlags /\ Fix(F) /\ PutI(I.d, v, MovWord(I.p, I.w, v))
  ELSE LET x == TLCEval(Op1V(I.p, I.w, v)) IN Fin /\ NoFlags /\ Fix(F) /\ PutI(I.d, x[1], x[2])
Op2 ==
  LET n == I.w  a == TLCEval(Val(I.a, n))  b == TLCEval(Val(I.b, n))
      r == TLCEval(Op2V(I.p, a, b, I.b[1] = "i", Carry)) IN
  IF ~Valid(I.a, n) \/ ~Valid(I.b, n) \/ ~Valid(I.d, n) THEN Stop
  ELSE /\ Fin /\ Fix(F) /\ PutI(I.d, r, Wide(r))
       /\ Flags(ZeroOf(I.z, r), VarFlag(I.p, I.v, a, b, r, Carry), I.v)
\* the operation, then a jump when its result is (not) zero
Op2z ==
  LET n == I.w  a == TLCEval(Val(I.a, n))  b == TLCEval(Val(I.b, n))
      r == TLCEval(Op2V(I.p, a, b, I.b[1] = "i", Carry)) IN
  IF ~Valid(I.a, n) \/ ~Valid(I.b, n) \/ ~Valid(I.d, n) \/ ~Known(r) THEN Stop
  ELSE /\ pc' = (IF IsZero(r) = (I.nz = 0) THEN Lab(jt[I.j + 1]) ELSE pc + 1) /\ Rest /\ Fix(F) /\ PutI(I.d, r, Wide(r))
       /\ Flags(-1, IF I.v = 12 THEN -1 ELSE VarFlag(I.p, I.v, a, b, r, Carry), I.v)
Op2r ==
  LET n == I.w  a == Val(I.a, n)  b == Val(I.b, n)  d == SubSeq(R[I.d[2]], 1, n) IN
  IF ~Valid(I.a, n) \/ ~Valid(I.b, n) THEN Stop
  ELSE Fin /\ NoFlags /\ Fix(<<F, mem>>)
       /\ R' = [R EXCEPT ![I.d[2]] = Wide(IF Known(a) /\ Known(b) /\ Known(d) THEN Add(d, Mul(a, b)) ELSE Un(n))]
ShInto ==
  LET n == I.w  a == Val(I.a, n)  b == Val(I.b, n)  c == Val(I.c, n)  k == ShAmt(c, n)  m == 8 * n - 1  x == m - k IN
  IF ~Valid(I.c, n) THEN Stop
  ELSE /\ Fin /\ NoFlags /\ Fix(<<F, mem>>)
       /\ R' = [R EXCEPT ![I.d[2]] = Wide(
            IF ~Known(a) \/ ~Known(b) \/ ~Known(c) THEN Un(n)
            ELSE IF (I.p \in {"shl", "lshr"} /\ I.c[1] # "i" /\ Big(c, n)) THEN Un(n)
            ELSE IF I.p \in {"shl", "mshl"} THEN OrW(Shl(a, k), ShrU(ShrU(b, 1), x))
            ELSE OrW(ShrU(a, k), Shl(Shl(b, 1), x)))]
OpFlags ==
  LET n == I.w  c == Cond(I.t)  v == IF c < 0 THEN Un(n) ELSE FromNat(c, n)  d == TLCEval(Val(I.d, n))
      r == TLCEval(IF I.p = "mov" THEN v ELSE Op2V(I.p, d, v, FALSE, -1)) IN
  IF ~Valid(I.d, n) THEN Stop
  ELSE /\ Fin /\ Fix(F) /\ PutI(I.d, r, Wide(r))
       /\ IF I.p = "mov" THEN KeepFlags ELSE Flags(ZeroOf(I.z, r), -1, -1)
Select ==
  LET n == I.w  c == Cond(I.t)  a == TLCEval(Val(I.a, n))  b == TLCEval(Val(I.b, n)) IN
  IF ~Valid(I.a, n) THEN Stop
  ELSE /\ Fin /\ KeepFlags
       /\ IF I.d[1] = "f" THEN PutF(I.d, IF c < 0 THEN Un(n) ELSE IF c = 1 THEN a ELSE b) /\ Fix(R)
          ELSE PutI(I.d, <<>>, Wide(IF c < 0 THEN Un(n) ELSE IF c = 1 THEN a ELSE b)) /\ Fix(F)
MemOp ==      \* sljit_emit_mem: register (pair) and memory
  LET n == MovN(I.p, I.w)  l == TLCEval(Place(I.a))  two == Len(I.d) = 3 IN
  IF ~InMem(l, IF two THEN 2 * n ELSE n) THEN Stop
  ELSE /\ Fin /\ KeepFlags /\ Fix(F)
       /\ IF I.st = 1
          THEN mem' = MemPut(l, SubSeq(R[I.d[2]], 1, n) \o (IF two THEN SubSeq(R[I.d[3]], 1, n) ELSE <<>>)) /\ Fix(R)
          ELSE LET v == Load(l, n)  v2 == Load(<<l[1], l[2] + n>>, n) IN
               R' = (IF two THEN [R EXCEPT ![I.d[2]] = MovWord(I.p, I.w, v), ![I.d[3]] = MovWord(I.p, I.w, v2)]
                     ELSE [R EXCEPT ![I.d[2]] = MovWord(I.p, I.w, v)]) /\ Fix(mem)
\* compare and swap; the value loaded before is still there, so it succeeds
AtStore ==
  LET n == MovN(I.p, I.w)  l == Locate(R[I.a[2]])  t == SubSeq(R[I.b[2]], 1, n) IN
  IF ~InMem(l, n) \/ ~Known(t) \/ Load(l, n) # t THEN Stop
  ELSE Fin /\ mem' = MemPut(l, SubSeq(R[I.d[2]], 1, n)) /\ Fix(<<R, F>>) /\ Flags(-1, IF I.v = 14 THEN 1 ELSE -1, I.v)
LocalBase == LET a == LocalAddr(ctx.r, I.v) IN
  IF ~Valid(I.d, 8) THEN Stop ELSE Fin /\ Fix(F) /\ NoFlags /\ PutI(I.d, a, a)
\* a MOV_S32 constant is a whole word with the sign of its 32 bits, in memory too
ConstOp == LET v == con[I.j + 1]  n == IF I.p = "mov_s32" THEN 8 ELSE MovN(I.p, I.w) IN
  IF ~Valid(I.d, n) THEN Stop ELSE Fin /\ Fix(F) /\ KeepFlags /\ PutI(I.d, SubSeq(v, 1, n), IF n = 8 THEN v ELSE MovWord(I.p, I.w, SubSeq(v, 1, n)))
\* the address of a label, or the sum of it and what the destination holds
AddrOp == LET p == Lab(jt[I.j + 1])
              b == IF p < 0 THEN Named(Zero(4), 600 - p) ELSE CodeAddr(p)
              a == IF I.add = 1 THEN TLCEval(Plus(Val(I.d, 8), b)) ELSE b IN
  IF ~Valid(I.d, 8) THEN Stop ELSE Fin /\ Fix(F) /\ KeepFlags /\ PutI(I.d, a, a)

FMov ==
  LET n == I.w  v == TLCEval(Val(I.a, n)) IN
  IF ~Valid(I.a, n) \/ ~Valid(I.d, n) THEN Stop
  ELSE /\ Fin /\ Fix(R) /\ (IF I.p = "mov" THEN KeepFlags ELSE NoFlags)
       /\ PutF(I.d, CASE I.p = "mov" -> v
                      [] I.p = "neg" -> IF Undefd(v) THEN Un(n) ELSE FNeg(v)
                      [] I.p = "abs" -> IF Undefd(v) THEN Un(n) ELSE FAbs(v))
FConvOp ==    \* between the precisions; w is the destination's
  LET v == TLCEval(Val(I.a, 12 - I.w)) IN
  IF ~Valid(I.a, 12 - I.w) \/ ~Valid(I.d, I.w) THEN Stop
  ELSE Fin /\ Fix(R) /\ NoFlags /\ PutF(I.d, IF Undefd(v) THEN Un(I.w) ELSE FConvert(v, I.w))
FToI ==       \* w: float width, n: integer width
  LET v == TLCEval(ToInt(Val(I.a, I.w), I.n)) IN
  IF ~Valid(I.a, I.w) \/ ~Valid(I.d, I.n) THEN Stop
  ELSE Fin /\ Fix(F) /\ NoFlags /\ PutI(I.d, v, Wide(v))
FFromI ==
  LET v == TLCEval(Val(I.a, I.n)) IN
  IF ~Valid(I.a, I.n) \/ ~Valid(I.d, I.w) THEN Stop
  ELSE Fin /\ Fix(R) /\ NoFlags
       /\ PutF(I.d, IF ~Known(v) THEN Un(I.w) ELSE IF I.sg = 1 THEN FromSInt(v, I.w) ELSE FromUInt(v, I.w))
FCmpOp ==
  IF ~Valid(I.a, I.w) \/ ~Valid(I.b, I.w) THEN Stop
  ELSE Fin /\ Fix(<<R, F, mem>>) /\ Flags(-1, FCmpT(I.v, Val(I.a, I.w), Val(I.b, I.w)), I.v)
FOp2 ==
  LET a == TLCEval(Val(I.a, I.w))  b == TLCEval(Val(I.b, I.w)) IN
  IF ~Valid(I.a, I.w) \/ ~Valid(I.b, I.w) \/ ~Valid(I.d, I.w) THEN Stop
  ELSE Fin /\ Fix(R) /\ NoFlags /\ PutF(I.d, FOp(I.p, a, b))
FSet == Fin /\ Fix(<<R, mem>>) /\ NoFlags /\ F' = [F EXCEPT ![I.d[2]] = Wide(I.v)]
FCopy == Fin /\ Fix(mem) /\ NoFlags
  /\ IF I.st = 0 THEN F' = [F EXCEPT ![I.d[2]] = Wide(SubSeq(R[I.a[2]], 1, I.w))] /\ Fix(R)
     ELSE R' = [R EXCEPT ![I.a[2]] = Wide(SubSeq(F[I.d[2]], 1, I.w))] /\ Fix(F)
FMemOp ==
  LET l == TLCEval(Place(I.a)) IN
  IF ~InMem(l, I.w) THEN Stop
  ELSE Fin /\ KeepFlags /\ Fix(R)
       /\ IF I.st = 1 THEN mem' = MemPut(l, SubSeq(F[I.d[2]], 1, I.w)) /\ Fix(F)
          ELSE F' = [F EXCEPT ![I.d[2]] = Wide(Load(l, I.w))] /\ Fix(mem)

---------------------------------------------------------------------------------
(* control *)
CmpJump == LET a == TLCEval(Val(I.a, I.w))  b == TLCEval(Val(I.b, I.w)) IN
  IF ~Valid(I.a, I.w) \/ ~Valid(I.b, I.w) \/ ~Known(a) \/ ~Known(b) THEN Stop
  ELSE pc' = (IF ICmpT(I.t, a, b) THEN Lab(jt[I.j + 1]) ELSE pc + 1) /\ Rest /\ NoFlags /\ Fix(<<R, F, mem>>)
FCmpJump == LET c == FCmpT(I.t, Val(I.a, I.w), Val(I.b, I.w)) IN
  IF ~Valid(I.a, I.w) \/ ~Valid(I.b, I.w) \/ c < 0 THEN Stop
  ELSE pc' = (IF c = 1 THEN Lab(jt[I.j + 1]) ELSE pc + 1) /\ Rest /\ NoFlags /\ Fix(<<R, F, mem>>)
IsCode(a) == IsNamed(a) /\ a[8] = 700
AddrPc(a) == LET o == Number(a) IN o[1] + 256 * o[2]
IJump == LET a == Val(I.a, 8) IN
  IF ~Valid(I.a, 8) \/ ~IsCode(a) THEN Stop
  ELSE pc' = AddrPc(a) /\ Rest /\ Flags(zf, IF vt = 12 THEN -1 ELSE vf, vt) /\ Fix(<<R, F, mem>>)
\* fast calls keep everything; the callee stores the return address where it wants
FastCall == arg' = <<CodeAddr(pc + 1)>> /\ pc' = Lab(jt[I.j + 1]) /\ Fix(<<pid, st, ctx, frs, con, jt, calls, act, R, F, mem, zf, vf, vt>>)
FastICall == LET a == Val(I.a, 8) IN
  IF ~Valid(I.a, 8) \/ ~IsCode(a) THEN Stop
  ELSE arg' = <<CodeAddr(pc + 1)>> /\ pc' = AddrPc(a) /\ Fix(<<pid, st, ctx, frs, con, jt, calls, act, R, F, mem, zf, vf, vt>>)
FastEnter == IF Len(arg) # 1 \/ ~Valid(I.d, 8) THEN Stop
  ELSE PutI(I.d, arg[1], arg[1]) /\ Next1 /\ arg' = <<>> /\ KeepFlags /\ Fix(<<pid, st, ctx, frs, con, jt, calls, act, F>>)
FastReturn == LET a == Val(I.a, 8) IN
  IF ~Valid(I.a, 8) \/ ~IsCode(a) THEN Stop
  ELSE pc' = AddrPc(a) /\ Rest /\ KeepFlags /\ Fix(<<R, F, mem>>)

\* the values a call passes: types "w" "3" "p" from R0, R1, ... and "d" "f" from FR0, FR1, ...
ArgVals(ts) == LET ni(k) == Cardinality({j \in 1..(k - 1) : ts[j] \in {"w", "3", "p"}}) IN
  [k \in 1..Len(ts) |->
    CASE ts[k] \in {"w", "p"} -> R[1 + ni(k)]
      [] ts[k] = "3" -> SubSeq(R[1 + ni(k)], 1, 4) \o U4
      [] ts[k] = "d" -> F[k - ni(k)]
      [] ts[k] = "f" -> SubSeq(F[k - ni(k)], 1, 4) \o U4]
NoRegs == [k \in 1..NREG |-> UW]
NoFRegs == [k \in 1..NFREG |-> UW]
\* saved registers a function with v saved registers leaves to its caller as they were (KEEP: passed through)
Restored(fr) == [k \in 1..NREG |-> IF k <= NREG - fr.ctx.v THEN UW
                                   ELSE IF k > NREG - ctx.keep THEN R[k] ELSE fr.regs[k]]
WithRet(regs, t, v) == IF t \in {"w", "p"} THEN [regs EXCEPT ![1] = v] ELSE IF t = "3" THEN [regs EXCEPT ![1] = SubSeq(v, 1, 4) \o U4] ELSE regs
WithFRet(t, v) == IF t = "d" THEN [NoFRegs EXCEPT ![1] = v] ELSE IF t = "f" THEN [NoFRegs EXCEPT ![1] = SubSeq(v, 1, 4) \o U4] ELSE NoFRegs

\* call of a function of the same code; I.tail: the running function ends first
CodeCall(target) ==
  /\ arg' = TLCEval(ArgVals(I.ts))
  /\ pc' = target
  /\ frs' = IF I.tail = 1 THEN frs ELSE Append(frs, [pc |-> pc + 1, ctx |-> ctx, regs |-> R])
  \* what a released function had saved is restored before the call
  /\ R' = IF I.tail = 1 THEN (IF frs = <<>> THEN NoRegs ELSE [k \in 1..NREG |-> IF k > NREG - ctx.keep THEN R[k] ELSE frs[Len(frs)].regs[k]]) ELSE R
  /\ NoFlags /\ Fix(<<pid, st, ctx, con, jt, calls, act, F, mem>>)
\* call of a C function of the harness: it sees the arguments, destroys scratch registers and answers C.rets
HostCall(h) ==
  LET r == C.rets[(Len(calls) % Len(C.rets)) + 1] IN
  /\ calls' = Append(calls, <<h>> \o TLCEval(ArgVals(I.ts)))
  /\ NoFlags /\ Fix(<<pid, con, jt, act, arg, mem>>)
  /\ IF I.tail = 0
     THEN /\ R' = WithRet([k \in 1..NREG |-> IF k <= NREG - ctx.v THEN UW ELSE R[k]], I.rt, r)
          /\ F' = WithFRet(I.rt, r) /\ Next1 /\ Fix(<<st, frs, ctx>>)
     ELSE IF frs = <<>> THEN st' = "done" /\ R' = WithRet(NoRegs, I.rt, r) /\ F' = WithFRet(I.rt, r) /\ Fix(<<pc, frs, ctx>>)
     ELSE LET fr == frs[Len(frs)] IN
          /\ R' = WithRet(Restored(fr), I.rt, r) /\ F' = WithFRet(I.rt, r)
          /\ pc' = fr.pc /\ ctx' = fr.ctx /\ frs' = SubSeq(frs, 1, Len(frs) - 1) /\ Fix(st)
CallOp == IF I.h > 0 THEN HostCall(I.h)
          ELSE IF I.j >= 0 THEN CodeCall(Lab(jt[I.j + 1]))
          ELSE LET a == Val(I.a, 8) IN IF Valid(I.a, 8) /\ IsCode(a) THEN CodeCall(AddrPc(a)) ELSE Stop
\* where sljit_emit_enter puts argument k of types ts ("W" "P" "T": word, pointer, 32 bit in a scratch register)
IsI(t) == t \in {"w", "3", "p", "W", "T", "P"}
ArgReg(ts, k) == LET ni == Cardinality({j \in 1..(k - 1) : IsI(ts[j])})
                     ns == Cardinality({j \in 1..(k - 1) : ts[j] \in {"w", "3", "p"}}) IN
                 IF ts[k] \in {"w", "3", "p"} THEN NREG - ns ELSE 1 + ni
Enter ==
  LET ts == I.ts
      ints == {k \in 1..Len(ts) : IsI(ts[k])}
      fk(k) == k - Cardinality({j \in ints : j < k})
      V(k) == IF ts[k] \in {"3", "T"} THEN SubSeq(arg[k], 1, 4) \o U4 ELSE arg[k] IN
  /\ Len(arg) = Len(ts)
  /\ ctx' = [s |-> I.s, v |-> I.sv, r |-> Len(mem) + 1, rt |-> I.rt, conv |-> I.ra, keep |-> I.keep]
  /\ mem' = Append(mem, TLCEval([k \in 1..I.loc |-> -1]))
  /\ R' = TLCEval([n \in 1..NREG |->
        LET S == {k \in ints : ArgReg(ts, k) = n} IN
        IF S # {} THEN V(CHOOSE k \in S : TRUE) ELSE IF n > NREG - I.keep THEN R[n] ELSE UW])
  /\ F' = TLCEval([n \in 1..NFREG |->
        LET S == {k \in (1..Len(ts)) \ ints : fk(k) = n} IN
        IF S # {} THEN LET k == CHOOSE k \in S : TRUE IN IF ts[k] = "f" THEN SubSeq(arg[k], 1, 4) \o U4 ELSE arg[k] ELSE UW])
  /\ arg' = <<>> /\ Next1 /\ NoFlags /\ Fix(<<pid, st, frs, con, jt, calls, act>>)
Return ==
  LET isf == ctx.rt \in {"d", "f"}
      n == IF I.a[1] = "n" THEN 8 ELSE IF ctx.rt \in {"3", "f"} THEN 4 ELSE 8
      src == IF I.a[1] = "n" THEN UW ELSE IF isf THEN Wide(Val(I.a, n)) ELSE MovWord(I.p, n, Val(I.a, MovN(I.p, n))) IN
  IF ~Valid(I.a, IF isf THEN n ELSE MovN(I.p, n)) THEN Stop
  ELSE IF frs = <<>>
  THEN /\ st' = "done" /\ R' = WithRet(NoRegs, ctx.rt, src) /\ F' = WithFRet(ctx.rt, src)
       /\ Fix(<<pid, pc, zf, vf, vt, mem, ctx, frs, arg, con, jt, calls, act>>)
  ELSE LET fr == frs[Len(frs)] IN
       /\ R' = TLCEval(WithRet(Restored(fr), ctx.rt, src)) /\ F' = WithFRet(ctx.rt, src)
       /\ pc' = fr.pc /\ ctx' = fr.ctx /\ frs' = SubSeq(frs, 1, Len(frs) - 1)
       /\ NoFlags /\ Fix(<<pid, st, mem, arg, con, jt, calls, act>>)
\* where the running function returns to
HostReturn == Named(<<0, 0, 0, 0>>, 701)
GetReturn == LET a == IF frs = <<>> THEN HostReturn ELSE CodeAddr(frs[Len(frs)].pc) IN
  IF ~Valid(I.d, 8) THEN Stop ELSE Fin /\ Fix(F) /\ KeepFlags /\ PutI(I.d, a, a)
\* leaves the function like a return, but continues elsewhere
ReturnTo == LET a == Val(I.a, 8) IN
  IF frs = <<>> /\ Valid(I.a, 8) /\ a = HostReturn
  THEN /\ st' = "done" /\ R' = [NoRegs EXCEPT ![1] = R[1]] /\ F' = NoFRegs
       /\ Fix(<<pid, pc, zf, vf, vt, mem, ctx, frs, arg, con, jt, calls, act>>)
  ELSE IF frs = <<>> \/ ~Valid(I.a, 8) \/ ~IsCode(a) THEN Stop
  ELSE LET fr == frs[Len(frs)] IN
       /\ R' = TLCEval([Restored(fr) EXCEPT ![1] = R[1]]) /\ F' = NoFRegs
       /\ pc' = AddrPc(a) /\ ctx' = fr.ctx /\ frs' = SubSeq(frs, 1, Len(frs) - 1)
       /\ NoFlags /\ Fix(<<pid, st, mem, arg, con, jt, calls, act>>)
\* stores every declared register to region 3
Dump ==
  LET w == [n \in 1..NREG |-> IF n <= I.s \/ n > NREG - I.sv THEN R[n] ELSE UW]
      bytes == [k \in 1..(8 * (NREG + NFREG)) |->
         LET q == (k - 1) \div 8  b == ((k - 1) % 8) + 1 IN
         IF q < NREG THEN (IF q + 1 <= I.s \/ q + 1 > NREG - I.sv THEN R[q + 1][b] ELSE mem[3][k])
         ELSE IF q - NREG + 1 <= I.fs THEN F[q - NREG + 1][b] ELSE mem[3][k]] IN
  Fin /\ KeepFlags /\ Fix(<<R, F>>) /\ mem' = [mem EXCEPT ![3] = TLCEval(bytes)]

Step ==
  st = "run" /\
  CASE I.o = "und" -> Fin /\ KeepFlags /\ Fix(<<F, mem>>) /\ R' = [R EXCEPT ![I.d[2]] = UW]
    [] I.o \in {"nop", "label"} -> Fin /\ KeepFlags /\ Fix(<<R, F, mem>>)
    [] I.o = "op0" -> Op0 [] I.o = "op1" -> Op1 [] I.o = "op2" -> Op2 [] I.o = "o2z" -> Op2z [] I.o = "op2r" -> Op2r
    [] I.o = "shi" -> ShInto [] I.o = "opf" -> OpFlags [] I.o \in {"sel", "fsel"} -> Select [] I.o = "mem" -> MemOp
    [] I.o = "ats" -> AtStore [] I.o = "lb" -> LocalBase [] I.o = "con" -> ConstOp [] I.o = "adr" -> AddrOp [] I.o = "gra" -> GetReturn
    [] I.o = "fop1" -> FMov [] I.o = "fcv" -> FConvOp [] I.o = "fti" -> FToI [] I.o = "ffi" -> FFromI [] I.o = "fcp" -> FCmpOp
    [] I.o = "fop2" -> FOp2 [] I.o = "fset" -> FSet [] I.o = "fcy" -> FCopy [] I.o = "fmem" -> FMemOp
    [] I.o = "jmp" -> Jump(IF I.t = 36 THEN 1 ELSE Cond(I.t), I.j)
    [] I.o = "cmp" -> CmpJump [] I.o = "fcm" -> FCmpJump [] I.o = "ijm" -> IJump
    [] I.o = "fca" -> FastCall [] I.o = "fci" -> FastICall [] I.o = "fen" -> FastEnter [] I.o = "frt" -> FastReturn
    [] I.o = "call" -> CallOp [] I.o = "ent" -> Enter [] I.o = "ret" -> Return [] I.o = "rto" -> ReturnTo [] I.o = "dmp" -> Dump

---------------------------------------------------------------------------------
(* the actions of a case: runs with what was observed, and patches of the generated code *)
A == C.acts[act]
ByteOk(s, r) == s < 0 \/ s > 255 \/ s = r
\* a NaN with open payload must still be one
WordOk(s, r) == /\ Len(s) = Len(r) /\ \A k \in 1..Len(s) : ByteOk(s[k], r[k])
                /\ (Len(s) >= 4 /\ NaNSym(SubSeq(s, 1, 4))) => IsNaN(SubSeq(r, 1, 4))
                /\ NaNSym(s) => IsNaN(r)
MemOk(s, r) == /\ Len(s) = Len(r) /\ \A k \in 1..Len(s) : ByteOk(s[k], r[k])
               /\ \A k \in 1..Len(s) : (s[k] = -11 /\ k + 3 <= Len(s) /\ NaNSym(SubSeq(s, k, k + 3))) => IsNaN(SubSeq(r, k, k + 3))
               /\ \A k \in 1..Len(s) : (s[k] = -21 /\ k + 7 <= Len(s) /\ NaNSym(SubSeq(s, k, k + 7))) => IsNaN(SubSeq(r, k, k + 7))
CallOk(s, r) == Len(s) = Len(r) /\ s[1] = r[1] /\ \A k \in 2..Len(s) : WordOk(s[k], r[k])
Verdict(v) == st' = v /\ PrintT(<<v, C.id, act>>) /\ UNCHANGED <<pid, pc, R, F, zf, vf, vt, mem, ctx, frs, arg, con, jt, calls, act>>
Bad(what, spec) == PrintT(<<"mismatch", C.id, act, what, spec>>) /\ Verdict("bad")
StartRun == /\ st = "env" /\ act <= Len(C.acts) /\ A.a = "run"
            /\ st' = "run" /\ pc' = Lab(A.lab) /\ arg' = A.arg /\ frs' = <<>> /\ calls' = <<>>
            /\ R' = NoRegs /\ F' = NoFRegs /\ mem' = C.mem /\ ctx' = NoCtx /\ NoFlags
            /\ UNCHANGED <<pid, con, jt, act>>
EndRun == st = "done" /\
  IF A.crash # "" THEN Bad("crash", A.crash)
  ELSE IF A.cs # 1 THEN Bad("registers of the caller changed", A.cs)
  ELSE IF ~(Len(calls) = Len(A.calls) /\ \A k \in 1..Len(calls) : CallOk(calls[k], A.calls[k])) THEN Bad("calls", calls)
  ELSE IF ~WordOk(R[1], A.r) THEN Bad("result", R[1])
  ELSE IF ~WordOk(F[1], A.f) THEN Bad("float result", F[1])
  ELSE IF ~MemOk(mem[1], A.mem[1]) THEN Bad("memory 1", mem[1])
  ELSE IF ~MemOk(mem[2], A.mem[2]) THEN Bad("memory 2", mem[2])
  ELSE IF ~MemOk(mem[3], A.mem[3]) THEN Bad("registers", mem[3])
  ELSE st' = "env" /\ act' = act + 1 /\ UNCHANGED <<pid, pc, R, F, zf, vf, vt, mem, ctx, frs, arg, con, jt, calls>>
SetConst == st = "env" /\ act <= Len(C.acts) /\ A.a = "setconst" /\ con' = [con EXCEPT ![A.j + 1] = A.v] /\ act' = act + 1
            /\ UNCHANGED <<pid, st, pc, R, F, zf, vf, vt, mem, ctx, frs, arg, jt, calls>>
SetJump == st = "env" /\ act <= Len(C.acts) /\ A.a = "setjump" /\ jt' = [jt EXCEPT ![A.j + 1] = A.l] /\ act' = act + 1
            /\ UNCHANGED <<pid, st, pc, R, F, zf, vf, vt, mem, ctx, frs, arg, con, calls>>
SetBuffer == st = "env" /\ act <= Len(C.acts) /\ A.a = "setbuf" /\ act' = act + 1
             /\ con' = [con EXCEPT ![C.nc + A.k] = TLCEval([q \in 1..Len(@) |-> IF q > A.off /\ q <= A.off + Len(A.v) THEN A.v[q - A.off] ELSE @[q]])]
             /\ UNCHANGED <<pid, st, pc, R, F, zf, vf, vt, mem, ctx, frs, arg, jt, calls>>
Finish == st = "env" /\ act > Len(C.acts) /\ Verdict("ok")

Init == /\ pid \in 1..Len(Cases) /\ st = "env" /\ pc = 1 /\ R = NoRegs /\ F = NoFRegs /\ zf = -1 /\ vf = -1 /\ vt = -1
        /\ mem = Cases[pid].mem /\ ctx = NoCtx /\ frs = <<>> /\ arg = <<>> /\ con = Cases[pid].con /\ jt = Cases[pid].jt
        /\ calls = <<>> /\ act = 1
Next == Step \/ StartRun \/ EndRun \/ SetConst \/ SetJump \/ SetBuffer \/ Finish
Spec == Init /\ [][Next]_mvars
NeverBad == st # "bad"
\* what holds of every state whatever the program
Sane == /\ \A k \in 1..NREG : Len(R[k]) = 8
        /\ \A k \in 1..NFREG : Len(F[k]) = 8
        /\ zf \in -1..1 /\ vf \in -1..1
        /\ Len(mem) >= 3
=================================================================================
