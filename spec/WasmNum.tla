--------------------------------- MODULE WasmNum --------------------------------
(* The numeric instructions of WebAssembly on words (see Bits, IEEE).              *)
(* Opcodes are the binary opcodes; 0xFC-prefixed ones are 64512 + sub-opcode.      *)
(* Results: a word, Trap (the instruction traps) or Undet (the result depends on   *)
(* the open sign/payload of a NaN, or pwart documents it as host dependent).       *)
EXTENDS IEEE

Trap  == <<>>
Undet == <<-2>>

LOCAL B(x) == FromBool(x)
ICmp(k, a, b) ==       \* k = 0..9 : eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u
  CASE k = 0 -> B(a = b)        [] k = 1 -> B(a # b)
    [] k = 2 -> B(LtS(a, b))    [] k = 3 -> B(LtU(a, b))
    [] k = 4 -> B(LtS(b, a))    [] k = 5 -> B(LtU(b, a))
    [] k = 6 -> B(~LtS(b, a))   [] k = 7 -> B(~LtU(b, a))
    [] k = 8 -> B(~LtS(a, b))   [] k = 9 -> B(~LtU(a, b))
FCmpOp(k, a, b) ==     \* eq ne lt gt le ge
  CASE k = 0 -> B(FEq(a, b))    [] k = 1 -> B(~FEq(a, b))
    [] k = 2 -> B(FLt(a, b))    [] k = 3 -> B(FLt(b, a))
    [] k = 4 -> B(FLe(a, b))    [] k = 5 -> B(FLe(b, a))
ShAmt(b) == (IF Len(b) = 4 THEN b[1] % 32 ELSE b[1] % 64)
IBin(k, a, b) ==       \* add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr
  LET n == Len(a) IN
  CASE k = 0 -> Add(a, b)
    [] k = 1 -> Sub(a, b)
    [] k = 2 -> Mul(a, b)
    [] k = 3 -> IF IsZero(b) \/ (a = MinInt(n) /\ b = Ones(n)) THEN Trap ELSE DivS(a, b)
    [] k = 4 -> IF IsZero(b) THEN Trap ELSE DivModU(a, b)[1]
    [] k = 5 -> IF IsZero(b) THEN Trap
                \* WebAssembly defines MinInt rem -1 = 0; the bundled backend's division faults on it
                ELSE RemS(a, b)
    [] k = 6 -> IF IsZero(b) THEN Trap ELSE DivModU(a, b)[2]
    [] k = 7 -> AndW(a, b)  [] k = 8 -> OrW(a, b)  [] k = 9 -> XorW(a, b)
    [] k = 10 -> Shl(a, ShAmt(b))
    [] k = 11 -> ShrS(a, ShAmt(b))
    [] k = 12 -> ShrU(a, ShAmt(b))
    [] k = 13 -> Rotl(a, ShAmt(b))
    [] k = 14 -> Rotl(a, (8 * n - ShAmt(b)) % (8 * n))
IUn(k, a) ==           \* clz ctz popcnt
  CASE k = 0 -> FromNat(Clz(a), Len(a)) [] k = 1 -> FromNat(Ctz(a), Len(a)) [] k = 2 -> FromNat(Popcnt(a), Len(a))
FUn(k, a) ==           \* abs neg ceil floor trunc nearest sqrt
  CASE k = 0 -> FAbs(a) [] k = 1 -> FNeg(a)
    [] k = 2 -> FRoundInt(a, "ceil") [] k = 3 -> FRoundInt(a, "floor")
    [] k = 4 -> FRoundInt(a, "trunc") [] k = 5 -> FRoundInt(a, "nearest") [] k = 6 -> FSqrt(a)
FBin(k, a, b) ==       \* add sub mul div min max copysign
  CASE k = 0 -> FAdd(a, b) [] k = 1 -> FSub(a, b) [] k = 2 -> FMul(a, b) [] k = 3 -> FDiv(a, b)
    [] k = 4 -> FMin(a, b) [] k = 5 -> FMax(a, b)
    [] k = 6 -> IF IsSym(b) THEN (IF IsSym(a) THEN a ELSE Undet) ELSE FCopysign(a, b)
TruncOp(a, k, sg) == IF TruncFits(a, k, sg) THEN TruncTo(a, k) ELSE Trap

\* operand classes, used to detect words that depend on an open NaN
IsFloatUn(op) == op \in 139..145 \/ op \in 153..159 \/ op \in {182, 187}
IsFloatBin(op) == op \in 91..102 \/ op \in 146..152 \/ op \in 160..166
IsUn(op) == op \in {69, 80} \/ op \in 103..105 \/ op \in 121..123 \/ op \in 139..145 \/ op \in 153..159
            \/ op \in 167..196 \/ op \in 64512..64519
IsBin(op) == op \in 70..79 \/ op \in 81..102 \/ op \in 106..120 \/ op \in 124..138 \/ op \in 146..152 \/ op \in 160..166

Cvt(op, a) ==
  CASE op = 167 -> Low(a, 4)                          \* i32.wrap_i64
    [] op \in {168, 170} -> TruncOp(a, 4, TRUE)       \* i32.trunc_f32_s / f64_s
    [] op \in {169, 171} -> TruncOp(a, 4, FALSE)
    [] op = 172 -> SignExt(a, 8)                      \* i64.extend_i32_s
    [] op = 173 -> ZeroExt(a, 8)
    [] op \in {174, 176} -> TruncOp(a, 8, TRUE)
    [] op \in {175, 177} -> TruncOp(a, 8, FALSE)
    [] op \in {178, 180} -> FromSInt(a, 4)            \* f32.convert_i32_s / i64_s
    [] op \in {179, 181} -> FromUInt(a, 4)
    [] op = 182 -> FConvert(a, 4)                     \* f32.demote_f64
    [] op \in {183, 185} -> FromSInt(a, 8)
    [] op \in {184, 186} -> FromUInt(a, 8)
    [] op = 187 -> FConvert(a, 8)                     \* f64.promote_f32
    [] op \in 188..191 -> a                           \* reinterpretations
    [] op = 192 -> SignExt(Low(a, 1), 4)
    [] op = 193 -> SignExt(Low(a, 2), 4)
    [] op = 194 -> SignExt(Low(a, 1), 8)
    [] op = 195 -> SignExt(Low(a, 2), 8)
    [] op = 196 -> SignExt(Low(a, 4), 8)
    \* saturating truncations: in-range values only; README documents the rest as host dependent
    [] op \in 64512..64519 ->
         LET k == IF op < 64516 THEN 4 ELSE 8  sg == op % 2 = 0 IN
         IF TruncFits(a, k, sg) THEN TruncSat(a, k, sg) ELSE Undet

UnOp(op, a) ==
  IF a[1] < 0 /\ ~IsFloatUn(op) THEN (IF op \in 168..177 THEN Trap ELSE Undet)
  ELSE IF op \in {69, 80} THEN B(IsZero(a))
  ELSE IF op \in 103..105 THEN IUn(op - 103, a)
  ELSE IF op \in 121..123 THEN IUn(op - 121, a)
  ELSE IF op \in 139..145 THEN FUn(op - 139, a)
  ELSE IF op \in 153..159 THEN FUn(op - 153, a)
  ELSE Cvt(op, a)
BinOp(op, a, b) ==
  IF (a[1] < 0 \/ b[1] < 0) /\ ~IsFloatBin(op) THEN Undet
  ELSE IF op \in 70..79 THEN ICmp(op - 70, a, b)
  ELSE IF op \in 81..90 THEN ICmp(op - 81, a, b)
  ELSE IF op \in 91..96 THEN FCmpOp(op - 91, a, b)
  ELSE IF op \in 97..102 THEN FCmpOp(op - 97, a, b)
  ELSE IF op \in 106..120 THEN IBin(op - 106, a, b)
  ELSE IF op \in 124..138 THEN IBin(op - 124, a, b)
  ELSE IF op \in 146..152 THEN FBin(op - 146, a, b)
  ELSE FBin(op - 160, a, b)
=================================================================================
