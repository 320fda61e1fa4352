---------------------------------- MODULE Bits ----------------------------------
(* Fixed-width machine words as little-endian byte sequences.                      *)
(* A word of n bytes is a sequence w of n integers in 0..255, w[1] least           *)
(* significant.  TLC integers are 32 bit, hence no operator below ever forms an    *)
(* intermediate value of 2^31 or more.                                             *)
(* TLCEval only forces evaluation; it is the identity.                             *)
(* The same operators on longer sequences serve as natural-number arithmetic for   *)
(* the floating-point module.                                                      *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt, TLC

LOCAL P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>      \* P2[k+1] = 2^k, k in 0..8

Zero(n) == IF n = 4 THEN <<0, 0, 0, 0>> ELSE IF n = 8 THEN <<0, 0, 0, 0, 0, 0, 0, 0>>
           ELSE TLCEval([i \in 1..n |-> 0])
Ones(n) == TLCEval([i \in 1..n |-> 255])
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0

\* small non-negative integer (< 2^31) as an n-byte word
FromNat(x, n) == TLCEval([i \in 1..n |->
    IF i = 1 THEN x % 256 ELSE IF i = 2 THEN (x \div 256) % 256
    ELSE IF i = 3 THEN (x \div 65536) % 256 ELSE IF i = 4 THEN (x \div 16777216) % 256 ELSE 0])
\* value of a word known to be < 2^31 (higher bytes must be zero)
ToNat(a) == IF Len(a) >= 4 THEN a[1] + 256 * a[2] + 65536 * a[3] + 16777216 * a[4]
            ELSE IF Len(a) = 2 THEN a[1] + 256 * a[2] ELSE a[1]
\* does the word fit in 0..2^31-1 ?
FitsNat(a) == /\ a[4] < 128 /\ \A i \in 5..Len(a) : a[i] = 0
FromBool(b) == IF b THEN <<1, 0, 0, 0>> ELSE <<0, 0, 0, 0>>

Neg1(a) == a[Len(a)] >= 128           \* sign bit
ZeroExt(a, n) == TLCEval([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0])
SignExt(a, n) == LET f == IF a[Len(a)] >= 128 THEN 255 ELSE 0
                 IN TLCEval([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE f])
Low(a, n) == SubSeq(a, 1, n)

NotW(a) == TLCEval([i \in 1..Len(a) |-> 255 - a[i]])
AndW(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
OrW(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] | b[i]])
XorW(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])

\* a + b + c (c in 0..1), modulo 2^(8 Len(a))
AddC(a, b, c) ==
  FoldLeftDomain(LAMBDA acc, i : LET s == a[i] + b[i] + acc[1] IN <<s \div 256, Append(acc[2], s % 256)>>,
                 <<c, <<>>>>, a)[2]
LOCAL L(a, i) == a[2 * i - 1] + 256 * a[2 * i]
Add(a, b) ==
  IF Len(a) = 4
  THEN LET l == L(a, 1) + L(b, 1)
           h == L(a, 2) + L(b, 2) + (l \div 65536)
       IN <<l % 256, (l \div 256) % 256, h % 256, (h \div 256) % 256>>
  ELSE IF Len(a) = 8
  THEN LET p == L(a, 1) + L(b, 1)
           q == L(a, 2) + L(b, 2) + (p \div 65536)
           r == L(a, 3) + L(b, 3) + (q \div 65536)
           s == L(a, 4) + L(b, 4) + (r \div 65536)
       IN <<p % 256, (p \div 256) % 256, q % 256, (q \div 256) % 256,
            r % 256, (r \div 256) % 256, s % 256, (s \div 256) % 256>>
  ELSE AddC(a, b, 0)
Sub(a, b) ==
  IF Len(a) = 4
  THEN LET l == L(a, 1) - L(b, 1)
           h == L(a, 2) - L(b, 2) + (l \div 65536)
       IN <<l % 256, (l \div 256) % 256, h % 256, (h \div 256) % 256>>
  ELSE IF Len(a) = 8
  THEN LET p == L(a, 1) - L(b, 1)
           q == L(a, 2) - L(b, 2) + (p \div 65536)
           r == L(a, 3) - L(b, 3) + (q \div 65536)
           s == L(a, 4) - L(b, 4) + (r \div 65536)
       IN <<p % 256, (p \div 256) % 256, q % 256, (q \div 256) % 256,
            r % 256, (r \div 256) % 256, s % 256, (s \div 256) % 256>>
  ELSE AddC(a, NotW(b), 1)
NegW(a) == Sub(Zero(Len(a)), a)

\* product truncated to n bytes (a and b at least n bytes are read, missing bytes are 0)
LOCAL At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) == IF i > k THEN 0 ELSE At(a, i) * At(b, k + 1 - i) + ColSum(a, b, k, i + 1)
MulN(a, b, n) ==
  FoldLeftDomain(LAMBDA acc, k : LET s == ColSum(a, b, k, 1) + acc[1] IN <<s \div 256, Append(acc[2], s % 256)>>,
                 <<0, <<>>>>, Zero(n))[2]
Mul(a, b) == MulN(a, b, Len(a))

\* -1, 0, 1 : unsigned comparison, from byte i downwards
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] = b[i] THEN CmpFrom(a, b, i - 1)
                          ELSE IF a[i] < b[i] THEN -1 ELSE 1
CmpU(a, b) == CmpFrom(a, b, Len(a))
CmpS(a, b) == IF Neg1(a) = Neg1(b) THEN CmpU(a, b) ELSE IF Neg1(a) THEN -1 ELSE 1
LtU(a, b) == CmpU(a, b) < 0
LtS(a, b) == CmpS(a, b) < 0

\* shifts by a small natural k (already reduced where the operation demands it)
Shl(a, k) == LET q == k \div 8  r == k % 8  n == Len(a) IN
  TLCEval([i \in 1..n |-> ((IF i - q >= 1 THEN a[i - q] * P2[r + 1] ELSE 0) % 256)
                          + (IF i - q >= 2 THEN a[i - q - 1] \div P2[9 - r] ELSE 0)])
LOCAL ShrF(a, k, f) == LET q == k \div 8  r == k % 8  n == Len(a)
                           g(i) == IF i <= n THEN a[i] ELSE f
  IN TLCEval([i \in 1..n |-> (g(i + q) \div P2[r + 1]) + ((g(i + q + 1) * P2[9 - r]) % 256)])
ShrU(a, k) == ShrF(a, k, 0)
ShrS(a, k) == ShrF(a, k, IF Neg1(a) THEN 255 ELSE 0)
\* rotate left by k in 0..8*Len(a)-1
Rotl(a, k) == LET q == k \div 8  r == k % 8  n == Len(a)
                  g(i) == a[((i - 1) % n) + 1]
  IN TLCEval([i \in 1..n |-> ((g(i - q) * P2[r + 1]) % 256) + (g(i - q - 1) \div P2[9 - r])])

\* number of significant bits of a byte / of a word
ByteLen(x) == IF x >= 16 THEN (IF x >= 64 THEN (IF x >= 128 THEN 8 ELSE 7) ELSE (IF x >= 32 THEN 6 ELSE 5))
              ELSE (IF x >= 4 THEN (IF x >= 8 THEN 4 ELSE 3) ELSE (IF x >= 2 THEN 2 ELSE x))
RECURSIVE BitLenFrom(_, _)
BitLenFrom(a, i) == IF i = 0 THEN 0 ELSE IF a[i] # 0 THEN 8 * (i - 1) + ByteLen(a[i]) ELSE BitLenFrom(a, i - 1)
BitLen(a) == BitLenFrom(a, Len(a))
Clz(a) == 8 * Len(a) - BitLen(a)
LOCAL ByteTz(x) == IF x % 16 = 0 THEN (IF x % 64 = 0 THEN (IF x % 128 = 0 THEN 7 ELSE 6) ELSE (IF x % 32 = 0 THEN 5 ELSE 4))
                   ELSE (IF x % 4 = 0 THEN (IF x % 8 = 0 THEN 3 ELSE 2) ELSE (IF x % 2 = 0 THEN 1 ELSE 0))
RECURSIVE CtzFrom(_, _)
CtzFrom(a, i) == IF i > Len(a) THEN 8 * Len(a) ELSE IF a[i] # 0 THEN 8 * (i - 1) + ByteTz(a[i]) ELSE CtzFrom(a, i + 1)
Ctz(a) == CtzFrom(a, 1)
LOCAL BytePop(x) == (x % 2) + ((x \div 2) % 2) + ((x \div 4) % 2) + ((x \div 8) % 2)
                  + ((x \div 16) % 2) + ((x \div 32) % 2) + ((x \div 64) % 2) + (x \div 128)
Popcnt(a) == FoldLeft(LAMBDA s, x : s + BytePop(x), 0, a)
\* bit k (0 = least significant)
Bit(a, k) == LET i == (k \div 8) + 1 IN IF i > Len(a) THEN 0 ELSE (a[i] \div P2[(k % 8) + 1]) % 2
\* are all bits below position k zero ?
LowZero(a, k) == k <= 0 \/ CtzFrom(a, 1) >= k

\* unsigned division: <<quotient, remainder>>, b # 0.  Schoolbook, one bit at a time.
DivModU(a, b) ==
  LET n == Len(a)
      len == BitLen(a)
      RECURSIVE Go(_, _, _)
      \* the remainder needs one spare byte for the shifted-in bit
      bx == ZeroExt(b, n + 1)
      Go(k, q, r) ==
        IF k < 0 THEN <<q, Low(r, n)>>
        ELSE LET r2 == TLCEval([Shl(r, 1) EXCEPT ![1] = @ + Bit(a, k)])
             IN IF CmpU(r2, bx) >= 0
                THEN Go(k - 1, TLCEval([q EXCEPT ![(k \div 8) + 1] = @ + P2[(k % 8) + 1]]), TLCEval(Sub(r2, bx)))
                ELSE Go(k - 1, q, r2)
  IN Go(len - 1, Zero(n), Zero(n + 1))
AbsW(a) == IF Neg1(a) THEN NegW(a) ELSE a
DivS(a, b) == LET q == DivModU(AbsW(a), AbsW(b))[1] IN IF Neg1(a) # Neg1(b) THEN NegW(q) ELSE q
RemS(a, b) == LET r == DivModU(AbsW(a), AbsW(b))[2] IN IF Neg1(a) THEN NegW(r) ELSE r
MinInt(n) == TLCEval([i \in 1..n |-> IF i = n THEN 128 ELSE 0])
=================================================================================
