----------------------------------- MODULE Simd ---------------------------------
(* The vector operations of the low-level compiler, as sljitLir.h documents them.    *)
(* A vector register holds 32 bytes, least significant lane first; a byte is 0..255  *)
(* or -1, left open by the documentation: the part of a register an operation does    *)
(* not name, a vector register after its float register was set and the other way.    *)
(* A case is a straight program, what its calls returned and the memory it left.      *)
EXTENDS IEEE, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
NV == 15
NR == 13
Open(n) == TLCEval([i \in 1..n |-> -1])
UW == <<-1, -1, -1, -1, -1, -1, -1, -1>>
U32 == Open(32)
Known(v) == \A i \in 1..Len(v) : v[i] >= 0

VARIABLES pid, st, pc,
  V, F, R,   \* vector, float and general registers
  zf,        \* the zero flag, -1 open
  mem        \* memory: 1 data, 2 and 3 results, 4 the locals
vars == <<pid, st, pc, V, F, R, zf, mem>>
C == Cases[pid]
I == C.ins[pc]

\* the low n bytes of an operand
Src(o, n) == CASE o[1] = "v" -> SubSeq(V[o[2]], 1, n)
               [] o[1] = "f" -> SubSeq(F[o[2]], 1, n)
               [] o[1] = "r" -> SubSeq(R[o[2]], 1, n)
               [] o[1] = "i" -> SubSeq(o[2], 1, n)
               [] o[1] = "m" -> SubSeq(mem[o[2]], o[3] + 1, o[3] + n)
Elem(v, e, k) == SubSeq(v, k * e + 1, k * e + e)
Put(o, v) == [mem EXCEPT ![o[2]] = TLCEval([i \in 1..Len(@) |-> IF i > o[3] /\ i <= o[3] + Len(v) THEN v[i - o[3]] ELSE @[i]])]

SetV(k, v) == /\ V' = [V EXCEPT ![k] = v \o Open(32 - Len(v))] /\ F' = [F EXCEPT ![k] = UW] /\ UNCHANGED <<R, mem, zf>>
SetF(k, v) == /\ F' = [F EXCEPT ![k] = v \o Open(8 - Len(v))] /\ V' = [V EXCEPT ![k] = U32] /\ UNCHANGED <<R, mem, zf>>
SetR(k, w) == R' = [R EXCEPT ![k] = w] /\ UNCHANGED <<V, F, mem, zf>>
SetM(o, v) == mem' = Put(o, v) /\ UNCHANGED <<V, F, R, zf>>

\* which forms the x86-64 back end has: C.avx2 tells whether the machine has 256 bit registers
Has(i) ==
  LET e == i.es  fl == i.fl IN
  /\ i.rs \in (IF C.avx2 THEN {4, 5} ELSE {4})
  /\ CASE i.a = "mov" -> fl => e \in {2, 3}
       [] i.a \in {"rep", "lan", "sgn"} -> e <= 3 /\ (fl => e >= 2)
       [] i.a = "lrp" -> fl => e \in {2, 3}
       [] i.a = "ext" -> IF fl THEN e = 2 /\ i.e2 = 3 ELSE e < i.e2 /\ i.e2 <= 3
       [] i.a = "op2" -> (fl => e \in {2, 3}) /\ (i.op = "shuf" => i.rs = 4)
Vec(i) == i.a \in {"mov", "rep", "lan", "lrp", "ext", "sgn", "op2"}

P2n(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128
Mov(i, n) == IF i.st THEN (IF i.o[1] = "v" THEN SetV(i.o[2], SubSeq(V[i.v], 1, n)) ELSE SetM(i.o, SubSeq(V[i.v], 1, n)))
             ELSE SetV(i.v, Src(i.o, n))
Replicate(i, n, e) == LET x == Src(i.o, e) IN SetV(i.v, TLCEval([k \in 1..n |-> x[((k - 1) % e) + 1]]))
LaneLoad(i, n, e) ==
  LET x == Src(i.o, e)
      b == IF i.z THEN [k \in 1..n |-> 0] ELSE V[i.v] IN
  SetV(i.v, TLCEval([k \in 1..n |-> IF (k - 1) \div e = i.ln THEN x[((k - 1) % e) + 1] ELSE b[k]]))
LaneStore(i, n, e) ==
  LET x == Elem(V[i.v], e, i.ln) IN
  CASE i.o[1] = "m" -> SetM(i.o, x)
    [] i.o[1] = "f" -> SetF(i.o[2], x)
    [] OTHER -> SetR(i.o[2], IF ~Known(x) THEN UW
                             ELSE LET w == IF i.sg THEN SignExt(x, 8) ELSE ZeroExt(x, 8) IN
                                  IF i.w32 THEN SubSeq(w, 1, 4) \o Open(4) ELSE w)
LaneReplicate(i, n, e) == LET x == Elem(V[i.v2], e, i.ln) IN SetV(i.v, TLCEval([k \in 1..n |-> x[((k - 1) % e) + 1]]))
\* elements of e bytes become elements of d bytes
Extend(i, n, e) ==
  LET d == P2n(i.e2)  c == n \div d  s == Src(i.o, c * e)
      X(k) == LET x == Elem(s, e, k) IN
              IF ~Known(x) THEN Open(d)
              ELSE IF i.fl THEN (LET y == FConvert(x, 8) IN IF IsSym(y) THEN Open(8) ELSE y)
              ELSE IF i.sg THEN SignExt(x, d) ELSE ZeroExt(x, d)
      all == TLCEval([k \in 1..c |-> X(k - 1)]) IN
  SetV(i.v, TLCEval([k \in 1..n |-> all[((k - 1) \div d) + 1][((k - 1) % d) + 1]]))
Sign(i, n, e) ==
  LET c == n \div e
      top(k) == V[i.v][k * e + e]
      bit(k) == IF k < c /\ top(k) >= 128 THEN P2n(k % 8) ELSE 0
      byte(b) == bit(8 * b) + bit(8 * b + 1) + bit(8 * b + 2) + bit(8 * b + 3) + bit(8 * b + 4) + bit(8 * b + 5) + bit(8 * b + 6) + bit(8 * b + 7)
      w == IF \E k \in 0..(c - 1) : top(k) < 0 THEN UW ELSE <<byte(0), byte(1), byte(2), byte(3), 0, 0, 0, 0>> IN
  IF i.o[1] = "m" THEN SetM(i.o, IF i.w32 THEN SubSeq(w, 1, 4) ELSE w)
  ELSE SetR(i.o[2], IF i.w32 THEN SubSeq(w, 1, 4) \o Open(4) ELSE w)
Binary(i, n) ==
  LET a == V[i.v1]  b == Src(i.o, n)
      f(k) == IF i.op = "shuf" THEN (IF b[k] >= 0 /\ b[k] < n THEN a[b[k] + 1] ELSE -1)
              ELSE IF a[k] < 0 \/ b[k] < 0 THEN -1
              ELSE CASE i.op = "and" -> a[k] & b[k] [] i.op = "or" -> a[k] | b[k] [] i.op = "xor" -> a[k] ^^ b[k] IN
  SetV(i.v, TLCEval([k \in 1..n |-> f(k)]))

Apply(i) ==
  LET n == P2n(i.rs)  e == P2n(i.es) IN
  CASE i.a = "mov" -> Mov(i, n)
    [] i.a = "rep" -> Replicate(i, n, e)
    [] i.a = "lan" -> IF i.st THEN LaneStore(i, n, e) ELSE LaneLoad(i, n, e)
    [] i.a = "lrp" -> LaneReplicate(i, n, e)
    [] i.a = "ext" -> Extend(i, n, e)
    [] i.a = "sgn" -> Sign(i, n, e)
    [] i.a = "op2" -> Binary(i, n)
Scalar(i) ==
  CASE i.a = "rset" -> SetR(i.r, i.w)
    [] i.a = "fld" -> SetF(i.f, Src(i.o, i.n))
    [] i.a = "fst" -> SetM(i.o, SubSeq(F[i.f], 1, i.n))
    [] i.a = "zset" -> zf' = (IF ~Known(R[i.r]) THEN -1 ELSE IF R[i.r] = i.w THEN 1 ELSE 0) /\ UNCHANGED <<V, F, R, mem>>
    [] i.a = "zget" -> SetR(i.r, IF zf < 0 THEN UW ELSE <<zf, 0, 0, 0, 0, 0, 0, 0>>)
    [] i.a = "dump" -> SetM(<<"m", 3, 0>>, TLCEval([k \in 1..(8 * NR) |-> R[((k - 1) \div 8) + 1][((k - 1) % 8) + 1]]))

Verdict(v) == st' = v /\ PrintT(<<v, C.id, pc>>) /\ UNCHANGED <<pid, pc, V, F, R, zf, mem>>
Bad(what, spec) == PrintT(<<"mismatch", C.id, pc, what, spec>>) /\ Verdict("bad")
\* what a call and its test form returned: supported or not, no code from a test or an operation that is not there
Step == /\ st = "run" /\ pc <= Len(C.ins)
        /\ IF Vec(I) /\ C.crash = "" /\ C.rc[pc] # (IF Has(I) THEN 0 ELSE 1) THEN Bad("returned", C.rc[pc])
           ELSE /\ pc' = pc + 1 /\ UNCHANGED <<pid, st>>
                /\ IF ~Vec(I) THEN Scalar(I) ELSE IF Has(I) THEN Apply(I) ELSE UNCHANGED <<V, F, R, zf, mem>>
MemOk(s, r) == Len(s) = Len(r) /\ \A k \in 1..Len(s) : s[k] < 0 \/ s[k] = r[k]
End == /\ st = "run" /\ pc > Len(C.ins)
       /\ IF C.crash # "" THEN Bad("crash", C.crash)
          ELSE IF C.cs # 1 THEN Bad("registers of the caller changed", C.cs)
          ELSE IF ~MemOk(mem[1], C.obs[1]) THEN Bad("memory", mem[1])
          ELSE IF ~MemOk(mem[2], C.obs[2]) THEN Bad("vector registers", mem[2])
          ELSE IF ~MemOk(mem[3], C.obs[3]) THEN Bad("registers", mem[3])
          ELSE Verdict("ok")
Init == /\ pid \in 1..Len(Cases) /\ st = "run" /\ pc = 1 /\ V = [k \in 1..NV |-> U32] /\ F = [k \in 1..NV |-> UW]
        /\ R = [k \in 1..NR |-> UW] /\ zf = -1 /\ mem = Cases[pid].mem \o <<Open(Cases[pid].loc)>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
\* a vector register and its float register never both have a value
Sane == /\ \A k \in 1..NV : Len(V[k]) = 32 /\ Len(F[k]) = 8 /\ (\E j \in 1..32 : V[k][j] >= 0) => F[k] = UW
        /\ \A k \in 1..NR : Len(R[k]) = 8
=================================================================================
