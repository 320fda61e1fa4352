---------------------------------- MODULE Wasm ----------------------------------
(* The abstract machine that pwart implements: a store of memories, tables and      *)
(* globals shared by module instances, and one thread of execution with a frame     *)
(* stack, an operand stack and structured labels.  Every instruction (class) is one *)
(* action.  The machine is closed by an environment that                            *)
(*   - instantiates modules, calls functions, answers host calls, and               *)
(*   - observes results, memories, tables and globals.                              *)
(* WasmTrace.tla lets recorded executions of the real JIT play the environment.     *)
(*                                                                                  *)
(* Values: words (see Bits) for i32,i64,f32,f64; references are                     *)
(*   <<0>>                  null                                                    *)
(*   <<1, inst, k>>         function k (import indices first) defined by instance   *)
(*   <<2, h>>               host function h                                         *)
(*   <<3, name>>            builtin function                                        *)
(*   <<9, b1, .., b8>>      an external pointer                                     *)
EXTENDS WasmNum, FiniteSets, TLC

CONSTANT Mods(_)      \* Mods(pid): sequence of module descriptions of program pid

VARIABLES pid,        \* which program
          st,         \* whose turn it is / how the program ended, see below
          stk,        \* operand stack (values of all frames)
          frs,        \* frames
          mems, tabs, globs,   \* the store
          insts       \* module instances
(* st: "env"  the environment (host code) runs; a host activation is on top of frs or frs is empty
       "run"  generated code runs                "host" a host function has just been called
       "ret"  a call made by the environment has just completed, its results are on top of stk
       "trap" | "undet"  no further behaviour is specified    "bad" | "ok"  verdicts of the trace module *)
mvars == <<pid, st, stk, frs, mems, tabs, globs, insts>>
store == <<mems, tabs, globs, insts>>

Null == <<0>>
ZeroOf(t) == CASE t \in {"i32", "f32"} -> Zero(4) [] t \in {"i64", "f64"} -> Zero(8) [] OTHER -> Null

---------------------------------------------------------------------------------
(* memories: [pg pages, mx maximum, ch chunks], ch maps chunk number -> 16 bytes     *)
ChunkGet(ch, c) == IF c \in DOMAIN ch THEN ch[c] ELSE Zero(16)
\* linear position of an effective address given as an 8-byte word: <<chunk, offset>>
Pos(ea) == <<(((ea[5] * 256 + ea[4]) * 256 + ea[3]) * 256 + ea[2]) * 16 + ea[1] \div 16, ea[1] % 16>>
\* [ea, ea+n) inside pg pages ?  (n small)
InBounds(ea, n, pg) ==
  /\ ea[5] < 4 /\ \A i \in 6..8 : ea[i] = 0      \* 16 GiB
  /\ LET p == Pos(ea) IN p[1] + ((p[2] + n - 1) \div 16) < pg * 4096 \/ n = 0
MemRead(m, ea, n) ==
  LET p == Pos(ea)  a == ChunkGet(m.ch, p[1]) IN
  IF p[2] + n <= 16 THEN SubSeq(a, p[2] + 1, p[2] + n)
  ELSE LET b == ChunkGet(m.ch, p[1] + 1) IN SubSeq(a, p[2] + 1, 16) \o SubSeq(b, 1, p[2] + n - 16)
\* write any number of bytes bs at ea
MemWrite(m, ea, bs) ==
  LET p == Pos(ea)  n == Len(bs)
      last == p[1] + ((p[2] + n - 1) \div 16)
      new == [c \in p[1]..last |->
                LET old == ChunkGet(m.ch, c) IN
                [i \in 1..16 |-> LET j == (c - p[1]) * 16 + i - p[2] IN IF j >= 1 /\ j <= n THEN bs[j] ELSE old[i]]]
  IN IF n = 0 THEN m ELSE [m EXCEPT !.ch = new @@ @]
\* read n bytes, n arbitrary natural
MemReadN(m, ea, n) ==
  LET p == Pos(ea) IN TLCEval([k \in 1..n |-> LET q == p[2] + k - 1 IN ChunkGet(m.ch, p[1] + (q \div 16))[(q % 16) + 1]])

---------------------------------------------------------------------------------
(* access to the program text *)
Mod(i) == Mods(pid)[insts[i].m]
FnType(i, k) == Mod(i).types[Mod(i).ft[k + 1] + 1]    \* [p |-> types, r |-> types]
\* function address denoted by function index k of instance i
FnAddr(i, k) == insts[i].fa[k + 1]
DefFn(i, k) == Mod(i).fns[k + 1 - Mod(i).nimpf]

Fr == frs[Len(frs)]
Code == DefFn(Fr.i, Fr.f).c
AtEnd == Fr.pc > Len(Code)
Top(k) == stk[Len(stk) + 1 - k]         \* k-th from the top, 1 = top
PopN(n) == SubSeq(stk, 1, Len(stk) - n)
TopN(n) == SubSeq(stk, Len(stk) - n + 1, Len(stk))

SetPc(p) == frs' = [frs EXCEPT ![Len(frs)].pc = p]
Next1 == SetPc(Fr.pc + 1)
Halt(s) == st' = s /\ UNCHANGED <<pid, stk, frs, mems, tabs, globs, insts>>
\* a step that only touches the operand stack
PushR(n, v) ==         \* pop n, push v, advance (or halt on Trap / Undet)
  IF v = Trap THEN Halt("trap") ELSE IF v = Undet THEN Halt("undet")
  ELSE /\ stk' = Append(PopN(n), v) /\ Next1 /\ UNCHANGED <<pid, st, mems, tabs, globs, insts>>

---------------------------------------------------------------------------------
(* instructions; ins is the current instruction, ins[1] the opcode *)
Nop(ins) == ins[1] = 1 /\ Next1 /\ UNCHANGED <<pid, st, stk, store>>
\* pwart compiles `unreachable` to nothing; a program that reaches it has no specified behaviour
Unreachable(ins) == ins[1] = 0 /\ Halt("undet")

Const(ins) == ins[1] \in 65..68 /\ PushR(0, Tail(ins))
Unary(ins) == IsUn(ins[1]) /\ PushR(1, UnOp(ins[1], Top(1)))
Binary(ins) == IsBin(ins[1]) /\ PushR(2, BinOp(ins[1], Top(2), Top(1)))
Drop(ins) == ins[1] = 26 /\ stk' = PopN(1) /\ Next1 /\ UNCHANGED <<pid, st, store>>
Select(ins) == ins[1] \in {27, 28} /\
  IF Top(1)[1] < 0 THEN Halt("undet") ELSE PushR(3, IF IsZero(Top(1)) THEN Top(2) ELSE Top(3))

LocalGet(ins) == ins[1] = 32 /\ PushR(0, Fr.loc[ins[2] + 1])
LocalSet(ins) == ins[1] = 33 /\
  /\ frs' = [frs EXCEPT ![Len(frs)] = [@ EXCEPT !.pc = @ + 1, !.loc[ins[2] + 1] = Top(1)]]
  /\ stk' = PopN(1) /\ UNCHANGED <<pid, st, store>>
LocalTee(ins) == ins[1] = 34 /\
  /\ frs' = [frs EXCEPT ![Len(frs)] = [@ EXCEPT !.pc = @ + 1, !.loc[ins[2] + 1] = Top(1)]]
  /\ UNCHANGED <<pid, st, stk, store>>
GAddr(k) == insts[Fr.i].ga[k + 1]
GlobalGet(ins) == ins[1] = 35 /\ PushR(0, globs[GAddr(ins[2])])
GlobalSet(ins) == ins[1] = 36 /\
  /\ globs' = [globs EXCEPT ![GAddr(ins[2])] = Top(1)]
  /\ stk' = PopN(1) /\ Next1 /\ UNCHANGED <<pid, st, mems, tabs, insts>>

\* --- control ---
Block(ins) == ins[1] = 2 /\
  /\ frs' = [frs EXCEPT ![Len(frs)] = [@ EXCEPT !.pc = @ + 1,
               !.lab = Append(@, [a |-> ins[2], t |-> ins[3] + 1, h |-> Len(stk)])]]
  /\ UNCHANGED <<pid, st, stk, store>>
\* branching to a loop label re-executes the loop instruction, which pushes the label again
Loop(ins) == ins[1] = 3 /\
  /\ frs' = [frs EXCEPT ![Len(frs)] = [@ EXCEPT !.pc = @ + 1,
               !.lab = Append(@, [a |-> 0, t |-> Fr.pc, h |-> Len(stk)])]]
  /\ UNCHANGED <<pid, st, stk, store>>
If(ins) == ins[1] = 4 /\
  IF Top(1)[1] < 0 THEN Halt("undet") ELSE
  LET c == ~IsZero(Top(1))
      lb == Append(Fr.lab, [a |-> ins[2], t |-> ins[4] + 1, h |-> Len(stk) - 1]) IN
  /\ frs' = [frs EXCEPT ![Len(frs)] =
       IF c THEN [@ EXCEPT !.pc = @ + 1, !.lab = lb]
       ELSE IF ins[3] # 0 THEN [@ EXCEPT !.pc = ins[3] + 1, !.lab = lb]
       ELSE [@ EXCEPT !.pc = ins[4] + 1]]
  /\ stk' = PopN(1) /\ UNCHANGED <<pid, st, store>>
Else(ins) == ins[1] = 5 /\      \* fallen into from the then branch
  /\ frs' = [frs EXCEPT ![Len(frs)] = [@ EXCEPT !.pc = ins[2] + 1, !.lab = SubSeq(@, 1, Len(@) - 1)]]
  /\ UNCHANGED <<pid, st, stk, store>>
End(ins) == ins[1] = 11 /\
  /\ frs' = [frs EXCEPT ![Len(frs)] = [@ EXCEPT !.pc = @ + 1, !.lab = SubSeq(@, 1, Len(@) - 1)]]
  /\ UNCHANGED <<pid, st, stk, store>>

\* leave the current frame with its results on top of the stack S
Leave(S) ==
  LET n == Len(FnType(Fr.i, Fr.f).r) IN
  /\ stk' = SubSeq(S, 1, Fr.h) \o SubSeq(S, Len(S) - n + 1, Len(S))
  /\ frs' = SubSeq(frs, 1, Len(frs) - 1)
  /\ st' = IF Len(frs) > 1 /\ frs[Len(frs) - 1].i # 0 THEN "run" ELSE "ret"
  /\ UNCHANGED <<pid, store>>
\* branch to label depth d with operand stack S
Branch(d, S) ==
  IF d >= Len(Fr.lab) THEN Leave(S)
  ELSE LET lb == Fr.lab[Len(Fr.lab) - d] IN
    /\ stk' = SubSeq(S, 1, lb.h) \o SubSeq(S, Len(S) - lb.a + 1, Len(S))
    /\ frs' = [frs EXCEPT ![Len(frs)] = [@ EXCEPT !.pc = lb.t, !.lab = SubSeq(@, 1, Len(@) - d - 1)]]
    /\ UNCHANGED <<pid, st, store>>
Br(ins) == ins[1] = 12 /\ Branch(ins[2], stk)
BrIf(ins) == ins[1] = 13 /\
  IF Top(1)[1] < 0 THEN Halt("undet")
  ELSE IF IsZero(Top(1)) THEN stk' = PopN(1) /\ Next1 /\ UNCHANGED <<pid, st, store>>
  ELSE Branch(ins[2], PopN(1))
\* <<14, d0, .., dk, default>>
BrTable(ins) == ins[1] = 14 /\
  LET v == Top(1)  k == Len(ins) - 2 IN
  IF v[1] < 0 THEN Halt("undet")
  ELSE Branch(IF FitsNat(v) /\ ToNat(v) < k THEN ins[ToNat(v) + 2] ELSE ins[k + 2], PopN(1))
Return(ins) == ins[1] = 15 /\ Leave(stk)
FallOff == AtEnd /\ Leave(stk)

\* --- calls ---
NewFrame(i, k, args, h) ==
  [i |-> i, f |-> k, pc |-> 1, h |-> h, lab |-> <<>>,
   loc |-> args \o [j \in 1..Len(DefFn(i, k).l) |-> ZeroOf(DefFn(i, k).l[j])]]
\* call function address fa whose type (as the caller sees it) is ty; S is the stack including arguments
Invoke(fa, ty, S, fs) ==
  LET n == Len(ty.p) IN
  IF fa[1] = 1
  THEN /\ stk' = SubSeq(S, 1, Len(S) - n)
       /\ frs' = Append(fs, NewFrame(fa[2], fa[3], SubSeq(S, Len(S) - n + 1, Len(S)), Len(S) - n))
       /\ st' = "run" /\ UNCHANGED <<pid, store>>
  ELSE IF fa[1] \in {2, 3}
  THEN \* host or builtin function: arguments stay on the stack until the environment answers
       /\ stk' = S
       /\ frs' = Append(fs, [i |-> 0, f |-> fa, pc |-> n, h |-> Len(S) - n, lab |-> <<>>, loc |-> <<>>])
       /\ st' = "host" /\ UNCHANGED <<pid, store>>
  ELSE Halt("trap")
Advanced == [frs EXCEPT ![Len(frs)].pc = @ + 1]
\* a tail call first discards the caller's frame
Without(S, n) == SubSeq(S, 1, Fr.h) \o SubSeq(S, Len(S) - n + 1, Len(S))
Call(ins) == ins[1] = 16 /\
  Invoke(FnAddr(Fr.i, ins[2]), FnType(Fr.i, ins[2]), stk, Advanced)
ReturnCall(ins) == ins[1] = 18 /\
  LET ty == FnType(Fr.i, ins[2]) IN
  Invoke(FnAddr(Fr.i, ins[2]), ty, Without(stk, Len(ty.p)), SubSeq(frs, 1, Len(frs) - 1))
\* <<17, type, table>>
TAddr(k) == insts[Fr.i].ta[k + 1]
Indirect(ins) == ins[1] \in {17, 19} /\
  LET v == Top(1)  t == tabs[TAddr(ins[3])]  ty == Mod(Fr.i).types[ins[2] + 1] IN
  IF v[1] < 0 THEN Halt("undet")
  ELSE IF ~FitsNat(v) \/ ToNat(v) >= Len(t) THEN Halt("trap")
  ELSE LET fa == t[ToNat(v) + 1] IN
    IF ins[1] = 17 THEN Invoke(fa, ty, PopN(1), Advanced)
    ELSE Invoke(fa, ty, Without(PopN(1), Len(ty.p)), SubSeq(frs, 1, Len(frs) - 1))

\* --- linear memory: <<op, mem, offset(8 bytes)>> ---
MAddr(k) == insts[Fr.i].ma[k + 1]
EA(ins, a) == Add(ZeroExt(a, 8), SubSeq(ins, 3, 10))
Width(op) == CASE op \in {40, 42, 52, 53, 54, 56, 62} -> 4 [] op \in {41, 43, 55, 57} -> 8
               [] op \in {44, 45, 48, 49, 58, 60} -> 1 [] op \in {46, 47, 50, 51, 59, 61} -> 2
LoadExt(op, bs) ==
  IF op \in {42, 43} THEN (IF \A i \in 1..Len(bs) : bs[i] >= 0 THEN bs ELSE IF bs = NaNv(Len(bs)) THEN bs ELSE Undet)
  ELSE IF \E i \in 1..Len(bs) : bs[i] < 0 THEN Undet
  ELSE CASE op \in {40, 41} -> bs
         [] op \in {44, 46} -> SignExt(bs, 4) [] op \in {45, 47} -> ZeroExt(bs, 4)
         [] op \in {48, 50, 52} -> SignExt(bs, 8) [] op \in {49, 51, 53} -> ZeroExt(bs, 8)
Load(ins) == ins[1] \in 40..53 /\
  LET m == mems[MAddr(ins[2])]  ea == EA(ins, Top(1))  w == Width(ins[1]) IN
  IF Top(1)[1] < 0 THEN Halt("undet")
  ELSE IF ~InBounds(ea, w, m.pg) THEN Halt("trap")
  ELSE PushR(1, LoadExt(ins[1], MemRead(m, ea, w)))
Store(ins) == ins[1] \in 54..62 /\
  LET k == MAddr(ins[2])  ea == EA(ins, Top(2))  w == Width(ins[1])  v == Top(1) IN
  IF Top(2)[1] < 0 \/ (v[1] < 0 /\ ins[1] \notin {56, 57}) THEN Halt("undet")
  ELSE IF ~InBounds(ea, w, mems[k].pg) THEN Halt("trap")
  ELSE /\ mems' = [mems EXCEPT ![k] = MemWrite(@, ea, Low(v, w))]
       /\ stk' = PopN(2) /\ Next1 /\ UNCHANGED <<pid, st, tabs, globs, insts>>
IdxW(k) == IF Mod(Fr.i).m64[k + 1] = 1 THEN 8 ELSE 4      \* bytes in an index of memory k
MemSize(ins) == ins[1] = 63 /\ PushR(0, FromNat(mems[MAddr(ins[2])].pg, IdxW(ins[2])))
MemGrow(ins) == ins[1] = 64 /\
  LET k == MAddr(ins[2])  d == Top(1)  m == mems[k] IN
  IF d[1] < 0 THEN Halt("undet")
  ELSE IF FitsNat(d) /\ ToNat(d) <= 65536 /\ m.pg + ToNat(d) <= m.mx
  THEN /\ mems' = [mems EXCEPT ![k].pg = @ + ToNat(d)]
       /\ stk' = Append(PopN(1), FromNat(m.pg, IdxW(ins[2]))) /\ Next1 /\ UNCHANGED <<pid, st, tabs, globs, insts>>
  ELSE PushR(1, Ones(IdxW(ins[2])))

\* --- bulk memory: operands may be i32 or i64 words ---
RangeOk(a, n, pg) == LET x == ZeroExt(a, 8)  e == Add(x, ZeroExt(n, 8))  hi == (e[5] * 256 + e[4]) * 256 + e[3] IN
                     /\ FitsNat(n) /\ x[5] < 4 /\ \A i \in 6..8 : x[i] = 0
                     /\ hi < pg \/ (hi = pg /\ e[1] = 0 /\ e[2] = 0)     \* end <= pg * 65536
AnyOpen(k) == \E i \in 1..k : Top(i)[1] < 0
MemCopy(ins) == ins[1] = 64522 /\       \* <<fc 0a, dst, src>>
  LET kd == MAddr(ins[2])  ks == MAddr(ins[3])  n == Top(1)  s == Top(2)  d == Top(3) IN
  IF AnyOpen(3) THEN Halt("undet")
  ELSE IF ~RangeOk(s, n, mems[ks].pg) \/ ~RangeOk(d, n, mems[kd].pg) THEN Halt("trap")
  ELSE /\ mems' = [mems EXCEPT ![kd] = MemWrite(@, ZeroExt(d, 8), MemReadN(mems[ks], ZeroExt(s, 8), ToNat(n)))]
       /\ stk' = PopN(3) /\ Next1 /\ UNCHANGED <<pid, st, tabs, globs, insts>>
MemFill(ins) == ins[1] = 64523 /\
  LET kd == MAddr(ins[2])  n == Top(1)  v == Top(2)  d == Top(3) IN
  IF AnyOpen(3) THEN Halt("undet")
  ELSE IF ~RangeOk(d, n, mems[kd].pg) THEN Halt("trap")
  ELSE /\ mems' = [mems EXCEPT ![kd] = MemWrite(@, ZeroExt(d, 8), [i \in 1..ToNat(n) |-> v[1]])]
       /\ stk' = PopN(3) /\ Next1 /\ UNCHANGED <<pid, st, tabs, globs, insts>>

\* --- tables and references ---
TRange(a, n, t) == FitsNat(a) /\ FitsNat(n) /\ ToNat(n) <= Len(t) /\ ToNat(a) <= Len(t) - ToNat(n)
RefNull(ins) == ins[1] = 208 /\ PushR(0, Null)
RefIsNull(ins) == ins[1] = 209 /\ PushR(1, FromBool(Top(1) = Null))
RefFunc(ins) == ins[1] = 210 /\ PushR(0, FnAddr(Fr.i, ins[2]))
TableGet(ins) == ins[1] = 37 /\
  LET t == tabs[TAddr(ins[2])]  v == Top(1) IN
  IF ~FitsNat(v) \/ ToNat(v) >= Len(t) THEN Halt("trap") ELSE PushR(1, t[ToNat(v) + 1])
TableSet(ins) == ins[1] = 38 /\
  LET k == TAddr(ins[2])  v == Top(2) IN
  IF ~FitsNat(v) \/ ToNat(v) >= Len(tabs[k]) THEN Halt("trap")
  ELSE /\ tabs' = [tabs EXCEPT ![k][ToNat(v) + 1] = Top(1)]
       /\ stk' = PopN(2) /\ Next1 /\ UNCHANGED <<pid, st, mems, globs, insts>>
TableSize(ins) == ins[1] = 64528 /\ PushR(0, FromNat(Len(tabs[TAddr(ins[2])]), 4))
\* pwart tables never grow
TableGrow(ins) == ins[1] = 64527 /\ PushR(2, Ones(4))
TableFill(ins) == ins[1] = 64529 /\     \* dst val n
  LET k == TAddr(ins[2])  n == Top(1)  v == Top(2)  d == Top(3)  t == tabs[k] IN
  IF ~TRange(d, n, t) THEN Halt("trap")
  ELSE /\ tabs' = [tabs EXCEPT ![k] = [j \in 1..Len(t) |-> IF j > ToNat(d) /\ j <= ToNat(d) + ToNat(n) THEN v ELSE t[j]]]
       /\ stk' = PopN(3) /\ Next1 /\ UNCHANGED <<pid, st, mems, globs, insts>>
TableCopy(ins) == ins[1] = 64526 /\     \* <<fc 0e, dst, src>>: dst src n
  LET kd == TAddr(ins[2])  ks == TAddr(ins[3])  n == Top(1)  s == Top(2)  d == Top(3) IN
  IF ~TRange(d, n, tabs[kd]) \/ ~TRange(s, n, tabs[ks]) THEN Halt("trap")
  ELSE /\ tabs' = [tabs EXCEPT ![kd] = [j \in 1..Len(tabs[kd]) |->
                IF j > ToNat(d) /\ j <= ToNat(d) + ToNat(n) THEN tabs[ks][j - ToNat(d) + ToNat(s)] ELSE tabs[kd][j]]]
       /\ stk' = PopN(3) /\ Next1 /\ UNCHANGED <<pid, st, mems, globs, insts>>

---------------------------------------------------------------------------------
Instr(ins) ==
  IF ins[1] >= 65 /\ ins[1] <= 196
  THEN Const(ins) \/ Unary(ins) \/ Binary(ins)
  ELSE IF ins[1] <= 31
  THEN \/ Nop(ins) \/ Unreachable(ins) \/ Block(ins) \/ Loop(ins) \/ If(ins) \/ Else(ins) \/ End(ins)
       \/ Br(ins) \/ BrIf(ins) \/ BrTable(ins) \/ Return(ins) \/ Call(ins) \/ ReturnCall(ins) \/ Indirect(ins)
       \/ Drop(ins) \/ Select(ins)
  ELSE IF ins[1] <= 64
  THEN \/ LocalGet(ins) \/ LocalSet(ins) \/ LocalTee(ins) \/ GlobalGet(ins) \/ GlobalSet(ins)
       \/ TableGet(ins) \/ TableSet(ins) \/ Load(ins) \/ Store(ins) \/ MemSize(ins) \/ MemGrow(ins)
  ELSE \/ RefNull(ins) \/ RefIsNull(ins) \/ RefFunc(ins)
       \/ Unary(ins)                                             \* 0xFC 0..7
       \/ MemCopy(ins) \/ MemFill(ins) \/ TableSize(ins) \/ TableGrow(ins) \/ TableFill(ins) \/ TableCopy(ins)

\* builtin functions that are pure: what they make of their arguments
PureBuiltin(n) == n \in {"version", "native_index_size", "ref_from_i64", "i64_from_ref"}
PtrValue(r) == IF r = Null THEN Zero(8) ELSE Tail(r)
RefValue(v) == IF IsZero(v) THEN Null ELSE <<9>> \o v
BuiltinResult(n, args) ==
  CASE n = "version" -> <<1, 0, 0, 0>>
    [] n = "native_index_size" -> <<8, 0, 0, 0>>
    [] n = "ref_from_i64" -> IF args[1][1] < 0 THEN Undet ELSE RefValue(args[1])
    [] n = "i64_from_ref" -> IF args[1][1] \in {0, 9} THEN PtrValue(args[1]) ELSE Undet   \* addresses of functions are open
Builtin == /\ st = "host" /\ Fr.f[1] = 3 /\ PureBuiltin(Fr.f[2])
           /\ LET r == BuiltinResult(Fr.f[2], SubSeq(stk, Fr.h + 1, Len(stk))) IN
              IF r = Undet THEN Halt("undet")
              ELSE /\ stk' = Append(SubSeq(stk, 1, Fr.h), r)
                   /\ frs' = SubSeq(frs, 1, Len(frs) - 1)
                   /\ st' = IF Len(frs) > 1 /\ frs[Len(frs) - 1].i # 0 THEN "run" ELSE "ret"
                   /\ UNCHANGED <<pid, store>>
IsBuiltin == Len(frs) > 0 /\ st = "host" /\ Fr.f[1] = 3 /\ PureBuiltin(Fr.f[2])

\* one step of running code
Step == \/ st = "run" /\ IF AtEnd THEN FallOff ELSE \E ins \in {Code[Fr.pc]} : Instr(ins)
        \/ IsBuiltin /\ Builtin

---------------------------------------------------------------------------------
(* environment actions *)

\* start executing function address fa with arguments args on behalf of the host
HostCalls(fa, ty, args) == st = "env" /\ Invoke(fa, ty, stk \o args, frs)
\* the called host function h observes its arguments and starts
HostEntered == st = "host" /\ st' = "env" /\ UNCHANGED <<pid, stk, frs, store>>
HostArgs == SubSeq(stk, Fr.h + 1, Len(stk))
\* the environment takes the n results of a completed call
TakeResults(n) == st = "ret" /\ st' = "env" /\ stk' = PopN(n) /\ UNCHANGED <<pid, frs, store>>
\* the environment answers the pending host call with results res
HostReturns(res) ==
  /\ st = "env" /\ Len(frs) > 0
  /\ stk' = SubSeq(stk, 1, Fr.h) \o res
  /\ frs' = SubSeq(frs, 1, Len(frs) - 1)
  /\ st' = IF Len(frs) > 1 /\ frs[Len(frs) - 1].i # 0 THEN "run" ELSE "ret"
  /\ UNCHANGED <<pid, store>>

\* constant expressions, evaluated over globals known so far (ga: addresses, gs: cells, fa: functions)
RECURSIVE CE(_, _, _, _, _)
CE(x, k, S, ga, fa) ==
  IF k > Len(x) THEN S[Len(S)]
  ELSE LET i == x[k]
           gs == ga IN
    CASE i[1] \in 65..68 -> CE(x, k + 1, Append(S, Tail(i)), ga, fa)
      [] i[1] = 35 -> CE(x, k + 1, Append(S, ga[i[2] + 1]), ga, fa)
      [] i[1] = 208 -> CE(x, k + 1, Append(S, Null), ga, fa)
      [] i[1] = 210 -> CE(x, k + 1, Append(S, fa[i[2] + 1]), ga, fa)
      [] OTHER -> CE(x, k + 1, Append(SubSeq(S, 1, Len(S) - 2), BinOp(i[1], S[Len(S) - 1], S[Len(S)])), ga, fa)
ConstEval(x, gvals, fa) == CE(x, 1, <<>>, gvals, fa)

NoMax == 32768        \* a memory without a declared maximum is limited to 2 GiB
\* instantiate module number m of the program; imp = [f, t, m, g] the addresses its imports are bound to
Instantiate(m, imp) ==
  LET md == Mods(pid)[m]
      ni == Len(insts) + 1
      fa == imp.f \o [j \in 1..Len(md.fns) |-> <<1, ni, md.nimpf + j - 1>>]
      ta == imp.t \o [j \in 1..Len(md.tabs) |-> Len(tabs) + j]
      ma == imp.m \o [j \in 1..Len(md.mems) |-> Len(mems) + j]
      ga == imp.g \o [j \in 1..Len(md.globs) |-> Len(globs) + j]
      nImpG == Len(imp.g)
      \* initial values of own globals, each may refer to earlier ones
      GV[j \in 0..Len(md.globs)] ==
        IF j = 0 THEN [k \in 1..nImpG |-> globs[imp.g[k]]]
        ELSE LET prev == GV[j - 1] IN Append(prev, ConstEval(md.globs[j].x, prev, fa))
      gv == GV[Len(md.globs)]
      newT == tabs \o [j \in 1..Len(md.tabs) |-> [k \in 1..md.tabs[j][1] |-> Null]]
      newM == mems \o [j \in 1..Len(md.mems) |->
                 [pg |-> md.mems[j][1], mx |-> IF md.mems[j][2] < 0 THEN NoMax ELSE md.mems[j][2], ch |-> <<>>]]
      El(T, e) == LET t == ta[e.t + 1]  o == ToNat(ConstEval(e.x, gv, fa)) IN
                  [T EXCEPT ![t] = [k \in 1..Len(@) |->
                     IF k > o /\ k <= o + Len(e.f) THEN ConstEval(e.f[k - o], gv, fa) ELSE @[k]]]
      Da(M, d) == [M EXCEPT ![ma[d.m + 1]] = MemWrite(@, ZeroExt(ConstEval(d.x, gv, fa), 8), d.b)]
  IN
  /\ insts' = Append(insts, [m |-> m, fa |-> fa, ta |-> ta, ma |-> ma, ga |-> ga])
  /\ globs' = globs \o SubSeq(gv, nImpG + 1, Len(gv))
  /\ tabs' = FoldLeft(El, newT, md.elem)
  /\ mems' = FoldLeft(Da, newM, md.data)
  /\ UNCHANGED <<pid, st, stk, frs>>

MachineInit == /\ st = "env" /\ stk = <<>> /\ frs = <<>>
               /\ mems = <<>> /\ tabs = <<>> /\ globs = <<>> /\ insts = <<>>

---------------------------------------------------------------------------------
(* invariants of the machine itself *)
FramesOk == \A k \in 1..Len(frs) :
   /\ frs[k].h <= Len(stk)
   /\ frs[k].i # 0 => \A j \in 1..Len(frs[k].lab) : frs[k].lab[j].h >= frs[k].h
StoreOk == /\ \A k \in 1..Len(mems) : mems[k].pg <= mems[k].mx
           /\ \A k \in 1..Len(insts) : \A a \in 1..Len(insts[k].ma) : insts[k].ma[a] <= Len(mems)
MachineInv == FramesOk /\ StoreOk
=================================================================================
