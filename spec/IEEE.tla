---------------------------------- MODULE IEEE ----------------------------------
(* IEEE-754 binary32/binary64 on bit patterns (byte words of 4 or 8 bytes).        *)
(* An arithmetic result that is a NaN is the symbolic word NaNv(n) ("some NaN"):   *)
(* WebAssembly leaves sign and payload open.  Its bytes are negative markers that  *)
(* encode width and position, so that a word reassembled from memory is recognised *)
(* as the same open NaN only if all its bytes come from one.                       *)
EXTENDS Bits

NaNv(n) == TLCEval([i \in 1..n |-> -(IF n = 4 THEN 10 + i ELSE 20 + i)])
IsSym(a) == a[1] < 0

MB(n) == IF n = 4 THEN 23 ELSE 52          \* mantissa bits
EMAX(n) == IF n = 4 THEN 255 ELSE 2047     \* all-ones exponent field
EMIN(n) == IF n = 4 THEN -149 ELSE -1074   \* exponent of the last place of subnormals
W(n) == IF n = 4 THEN 9 ELSE 17            \* bytes of working precision

Sgn(a) == IF Neg1(a) THEN 1 ELSE 0
ExpField(a) == IF Len(a) = 4 THEN (a[4] % 128) * 2 + a[3] \div 128
               ELSE (a[8] % 128) * 16 + a[7] \div 16
Frac(a) == IF Len(a) = 4 THEN <<a[1], a[2], a[3] % 128, 0>>
           ELSE <<a[1], a[2], a[3], a[4], a[5], a[6], a[7] % 16, 0>>
IsNaN(a) == IsSym(a) \/ (ExpField(a) = EMAX(Len(a)) /\ ~IsZero(Frac(a)))
IsInf(a) == ~IsSym(a) /\ ExpField(a) = EMAX(Len(a)) /\ IsZero(Frac(a))
IsFZero(a) == ~IsSym(a) /\ ExpField(a) = 0 /\ IsZero(Frac(a))
InfS(n, s) == IF n = 4 THEN <<0, 0, 128, 127 + 128 * s>> ELSE <<0, 0, 0, 0, 0, 0, 240, 127 + 128 * s>>
ZeroS(n, s) == TLCEval([i \in 1..n |-> IF i = n THEN 128 * s ELSE 0])

\* finite value = (-1)^Sgn * Mant * 2^Exp2
Mant(a) == LET n == Len(a)  f == Frac(a) IN
  IF ExpField(a) = 0 THEN f
  ELSE IF n = 4 THEN [f EXCEPT ![3] = @ + 128] ELSE [f EXCEPT ![7] = @ + 16]
Exp2(a) == LET e == ExpField(a)  n == Len(a) IN (IF e = 0 THEN 0 ELSE e - 1) + EMIN(n)

\* round (-1)^s * m * 2^e to nearest, ties to even, into n bytes. m is a natural of any width.
Round(s, m, e, n) ==
  IF IsZero(m) THEN ZeroS(n, s) ELSE
  LET p   == MB(n) + 1
      len == BitLen(m)
      sh  == LET x == len - p  y == EMIN(n) - e IN IF x > y THEN x ELSE y   \* bits to drop
      wid == IF Len(m) > 9 THEN Len(m) ELSE 9
      mw  == ZeroExt(m, wid)
      q0  == IF sh <= 0 THEN Shl(mw, -sh)
             ELSE IF sh > len THEN Zero(wid) ELSE ShrU(mw, sh)
      up  == sh > 0 /\ Bit(m, sh - 1) = 1 /\ (~LowZero(m, sh - 1) \/ Bit(q0, 0) = 1)
      q1  == IF up THEN Add(q0, FromNat(1, wid)) ELSE q0
      ov  == BitLen(q1) > p
      q   == IF ov THEN ShrU(q1, 1) ELSE q1
      eq  == e + sh + (IF ov THEN 1 ELSE 0)          \* exponent of the last place of q
      ef  == IF BitLen(q) < p THEN 0 ELSE eq - EMIN(n) + 1
  IN IF ef >= EMAX(n) THEN InfS(n, s)
     ELSE IF n = 4
     THEN <<q[1], q[2], (q[3] % 128) + 128 * (ef % 2), (ef \div 2) + 128 * s>>
     ELSE <<q[1], q[2], q[3], q[4], q[5], q[6], (q[7] % 16) + 16 * (ef % 16), (ef \div 16) + 128 * s>>

FAbs(a) == IF IsSym(a) THEN a ELSE [a EXCEPT ![Len(a)] = @ % 128]
FNeg(a) == IF IsSym(a) THEN a ELSE [a EXCEPT ![Len(a)] = (@ + 128) % 256]
FCopysign(a, b) == IF IsSym(a) THEN a ELSE [a EXCEPT ![Len(a)] = (@ % 128) + 128 * Sgn(b)]

\* the exact sum of two finite values, rounded.  The operand with the larger exponent is shifted left
\* by at most D bits; anything further below is only a sticky unit.
FAdd(a, b) ==
  LET n == Len(a) IN
  IF IsNaN(a) \/ IsNaN(b) THEN NaNv(n)
  ELSE IF IsInf(a) THEN (IF IsInf(b) /\ Sgn(a) # Sgn(b) THEN NaNv(n) ELSE a)
  ELSE IF IsInf(b) THEN b
  ELSE IF IsFZero(a) /\ IsFZero(b) THEN ZeroS(n, IF Sgn(a) = 1 /\ Sgn(b) = 1 THEN 1 ELSE 0)
  ELSE IF IsFZero(a) THEN b
  ELSE IF IsFZero(b) THEN a
  ELSE
  LET w  == W(n)
      hi == IF Exp2(a) >= Exp2(b) THEN a ELSE b
      lo == IF Exp2(a) >= Exp2(b) THEN b ELSE a
      D  == IF n = 4 THEN 32 ELSE 64
      d  == Exp2(hi) - Exp2(lo)
      dd == IF d > D THEN D ELSE d
      e  == Exp2(hi) - dd
      mh == Shl(ZeroExt(Mant(hi), w), dd)
      \* when d > D the low operand lies wholly below the last place of mh (Mant < 2^(MB+1) <= 2^D):
      \* if d > D + MB + 1 it is less than one unit; otherwise keep its top bits plus a sticky bit
      x  == d - dd
      ml0 == ZeroExt(Mant(lo), w)
      sticky == x > 0 /\ ~LowZero(ml0, x)
      ml1 == IF x > 0 THEN (IF x > 60 THEN Zero(w) ELSE ShrU(ml0, x)) ELSE ml0
      \* two extra low bits hold the sticky information exactly
      H  == Shl(mh, 2)
      Lw == LET t == Shl(ml1, 2) IN IF sticky THEN [t EXCEPT ![1] = @ + 1] ELSE t
  IN IF Sgn(hi) = Sgn(lo) THEN Round(Sgn(hi), Add(H, Lw), e - 2, n)
     ELSE LET c == CmpU(H, Lw) IN
       IF c = 0 THEN ZeroS(n, 0)
       ELSE IF c > 0 THEN Round(Sgn(hi), Sub(H, Lw), e - 2, n)
       ELSE Round(Sgn(lo), Sub(Lw, H), e - 2, n)
FSub(a, b) == IF IsNaN(b) THEN NaNv(Len(a)) ELSE FAdd(a, FNeg(b))

FMul(a, b) ==
  LET n == Len(a)
      s == IF ~IsSym(a) /\ ~IsSym(b) THEN (Sgn(a) + Sgn(b)) % 2 ELSE 0 IN
  IF IsNaN(a) \/ IsNaN(b) THEN NaNv(n)
  ELSE IF IsInf(a) \/ IsInf(b) THEN (IF IsFZero(a) \/ IsFZero(b) THEN NaNv(n) ELSE InfS(n, s))
  ELSE IF IsFZero(a) \/ IsFZero(b) THEN ZeroS(n, s)
  ELSE Round(s, MulN(Mant(a), Mant(b), 2 * n), Exp2(a) + Exp2(b), n)

\* mantissa with its leading bit at position MB (normalises subnormals): <<m, e>>
LOCAL Norm(a) == LET m == Mant(a)  k == MB(Len(a)) + 1 - BitLen(m) IN <<Shl(m, k), Exp2(a) - k>>

FDiv(a, b) ==
  LET n == Len(a)
      s == IF ~IsSym(a) /\ ~IsSym(b) THEN (Sgn(a) + Sgn(b)) % 2 ELSE 0 IN
  IF IsNaN(a) \/ IsNaN(b) THEN NaNv(n)
  ELSE IF IsInf(a) THEN (IF IsInf(b) THEN NaNv(n) ELSE InfS(n, s))
  ELSE IF IsInf(b) THEN ZeroS(n, s)
  ELSE IF IsFZero(b) THEN (IF IsFZero(a) THEN NaNv(n) ELSE InfS(n, s))
  ELSE IF IsFZero(a) THEN ZeroS(n, s)
  ELSE
  LET w  == W(n)
      K  == MB(n) + 4                              \* quotient has at least MB+4 bits
      na == Norm(a)  nb == Norm(b)
      qr == DivModU(Shl(ZeroExt(na[1], w), K), ZeroExt(nb[1], w))
      q  == Shl(qr[1], 1)
  IN Round(s, IF IsZero(qr[2]) THEN q ELSE [q EXCEPT ![1] = @ + 1], na[2] - nb[2] - K - 1, n)

\* integer square root, bit by bit: <<floor(sqrt(m)), m is a perfect square>>
LOCAL ISqrt(m) ==
  LET n == Len(m)
      RECURSIVE Go(_, _, _)
      \* classic digit-by-digit method: bit = 4^k, res accumulates
      Go(k, x, r) ==
        IF k < 0 THEN <<r, IsZero(x)>>
        ELSE LET bit == Shl(FromNat(1, n), 2 * k)
                 t == Add(r, bit)
                 h == ShrU(r, 1)
             IN IF CmpU(x, t) >= 0 THEN Go(k - 1, TLCEval(Sub(x, t)), TLCEval(Add(h, bit))) ELSE Go(k - 1, x, h)
  IN Go((BitLen(m) - 1) \div 2, m, Zero(n))

FSqrt(a) ==
  LET n == Len(a) IN
  IF IsNaN(a) THEN NaNv(n)
  ELSE IF IsFZero(a) THEN a
  ELSE IF Sgn(a) = 1 THEN NaNv(n)
  ELSE IF IsInf(a) THEN a
  ELSE
  LET w  == W(n)
      na == Norm(a)
      K0 == MB(n) + 4
      K  == IF (na[2] - K0) % 2 = 0 THEN K0 ELSE K0 + 1
      sq == ISqrt(Shl(ZeroExt(na[1], w), K))
      q  == Shl(sq[1], 1)
  IN Round(0, IF sq[2] THEN q ELSE [q EXCEPT ![1] = @ + 1], ((na[2] - K) \div 2) - 1, n)

\* comparison of non-NaN values: -1, 0, 1
FCmp(a, b) ==
  IF IsFZero(a) /\ IsFZero(b) THEN 0
  ELSE IF Sgn(a) # Sgn(b) THEN (IF Sgn(a) = 1 THEN -1 ELSE 1)
  ELSE IF Sgn(a) = 0 THEN CmpU(a, b) ELSE CmpU(b, a)
FEq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ FCmp(a, b) = 0
FLt(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ FCmp(a, b) < 0
FLe(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ FCmp(a, b) <= 0
FMin(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaNv(Len(a))
              ELSE IF IsFZero(a) /\ IsFZero(b) THEN (IF Sgn(a) = 1 THEN a ELSE b)
              ELSE IF FCmp(a, b) <= 0 THEN a ELSE b
FMax(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaNv(Len(a))
              ELSE IF IsFZero(a) /\ IsFZero(b) THEN (IF Sgn(a) = 0 THEN a ELSE b)
              ELSE IF FCmp(a, b) >= 0 THEN a ELSE b

\* rounding to an integral value; mode in {"ceil","floor","trunc","nearest"}
FRoundInt(a, mode) ==
  LET n == Len(a) IN
  IF IsNaN(a) THEN NaNv(n)
  ELSE IF IsInf(a) \/ IsFZero(a) \/ Exp2(a) >= 0 THEN a
  ELSE
  LET k == -Exp2(a)
      m == Mant(a)
      s == Sgn(a)
      big == k > 8 * n
      i == IF big THEN Zero(n) ELSE ShrU(m, k)
      inexact == big \/ ~LowZero(m, k)
      half == IF big THEN 0 ELSE Bit(m, k - 1)
      above == big \/ ~LowZero(m, k - 1)
      up == CASE mode = "trunc"   -> FALSE
              [] mode = "ceil"    -> inexact /\ s = 0
              [] mode = "floor"   -> inexact /\ s = 1
              [] mode = "nearest" -> half = 1 /\ (above \/ Bit(i, 0) = 1)
  IN Round(s, IF up THEN Add(i, FromNat(1, n)) ELSE i, 0, n)

\* conversions
FromUInt(a, n) == Round(0, a, 0, n)
FromSInt(a, n) == IF Neg1(a) THEN Round(1, NegW(a), 0, n) ELSE Round(0, a, 0, n)
FConvert(a, n) == IF IsNaN(a) THEN NaNv(n) ELSE IF IsInf(a) THEN InfS(n, Sgn(a))
                  ELSE Round(Sgn(a), Mant(a), Exp2(a), n)
\* truncation toward zero as an unbounded magnitude in 17 bytes; "big" when it needs more than 128 bits
TruncMag(a) == LET e == Exp2(a)  m == ZeroExt(Mant(a), 17) IN
  IF e >= 0 THEN (IF e > 72 THEN <<TRUE, Ones(17)>> ELSE <<FALSE, Shl(m, e)>>)
  ELSE <<FALSE, IF -e > 64 THEN Zero(17) ELSE ShrU(m, -e)>>
\* the truncated value fits the k-byte integer type (signed if sg)
LOCAL TwoTo(b) == Shl(FromNat(1, 17), b)
TruncFits(a, k, sg) ==
  /\ ~IsNaN(a) /\ ~IsInf(a)
  /\ LET t == TruncMag(a) IN ~t[1] /\
     IF Sgn(a) = 0 THEN CmpU(t[2], TwoTo(IF sg THEN 8 * k - 1 ELSE 8 * k)) < 0
     ELSE IF sg THEN CmpU(t[2], TwoTo(8 * k - 1)) <= 0
     ELSE IsZero(t[2])
TruncTo(a, k) == LET v == Low(TruncMag(a)[2], k) IN IF Sgn(a) = 1 THEN NegW(v) ELSE v
TruncSat(a, k, sg) ==
  IF IsNaN(a) THEN Zero(k)
  ELSE IF TruncFits(a, k, sg) THEN TruncTo(a, k)
  ELSE IF Sgn(a) = 1 THEN (IF sg THEN MinInt(k) ELSE Zero(k))
  ELSE IF sg THEN NotW(MinInt(k)) ELSE Ones(k)
=================================================================================
