---------------------------------- MODULE Regex ----------------------------------
(* The pattern language of sljit/regex_src and what a match object reports.          *)
(*                                                                                    *)
(* Parse gives the tree of a pattern (a sequence of bytes), or says that it is        *)
(* invalid.  Result gives what is reported once a string has been fed to a match      *)
(* object: the leftmost beginning at which the pattern matches, the longest (or, not  *)
(* greedy, the shortest) end for it, and the highest identifier passed on a way from  *)
(* one to the other.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NL == {10, 13}
Digit(c) == c >= 48 /\ c <= 57
--------------------------------------------------------------------------------
(* Trees: chr (a set of characters: items are pairs low, high), id, seq, alt, rep *)
Chr(neg, items) == [k |-> "chr", neg |-> neg, items |-> items]
Lit(c) == Chr(FALSE, <<<<c, c>>>>)
Id(v) == [k |-> "id", v |-> v]
Cat(xs) == [k |-> "seq", xs |-> xs]
Alt(xs) == [k |-> "alt", xs |-> xs]
Rep(x, min, max) == [k |-> "rep", x |-> x, min |-> min, max |-> max]   \* max = -1: any number

Valid == 0
Invalid == 2
Open == 3      \* a { which is no iterator, at the beginning of a term, with an iterator applied to it

--------------------------------------------------------------------------------
RECURSIVE Num(_, _, _)
Num(P, i, v) == IF i <= Len(P) /\ Digit(P[i]) THEN Num(P, i + 1, v * 10 + (P[i] - 48)) ELSE [v |-> v, i |-> i]

\* {n} {n,} {,m} {n,m} {id!}; anything else is an ordinary character
Brace(P, i) ==
  LET L == Len(P)
      lit == [t |-> "lit", i |-> i + 1]
      range(v1, j) == IF j > L THEN lit
                      ELSE IF P[j] = 125 THEN [t |-> "rep", min |-> v1, max |-> -1, i |-> j + 1]
                      ELSE IF ~Digit(P[j]) THEN lit
                      ELSE LET n == Num(P, j, 0) IN
                           IF n.i <= L /\ P[n.i] = 125 /\ n.v >= v1 THEN [t |-> "rep", min |-> v1, max |-> n.v, i |-> n.i + 1] ELSE lit
  IN IF i + 1 > L THEN lit
     ELSE IF P[i + 1] = 44 THEN range(0, i + 2)
     ELSE IF ~Digit(P[i + 1]) THEN lit
     ELSE LET n == Num(P, i + 1, 0) IN
          IF n.i > L THEN lit
          ELSE IF P[n.i] = 125 THEN [t |-> "rep", min |-> n.v, max |-> n.v, i |-> n.i + 1]
          ELSE IF P[n.i] = 33 /\ n.i + 1 <= L /\ P[n.i + 1] = 125 THEN [t |-> "id", v |-> n.v, i |-> n.i + 2]
          ELSE IF P[n.i] = 44 THEN range(n.v, n.i + 1)
          ELSE lit

\* [...] and [^...]: the first character is in the set even if it is ]
RECURSIVE Items(_, _, _)
Items(P, j, acc) ==
  LET L == Len(P)
      chr(p) == IF p > L THEN [ok |-> FALSE]
                ELSE IF P[p] # 92 THEN [ok |-> TRUE, c |-> P[p], i |-> p + 1]
                ELSE IF p + 1 > L THEN [ok |-> FALSE]
                ELSE [ok |-> TRUE, c |-> P[p + 1], i |-> p + 2]
  IN IF j > L THEN [ok |-> FALSE]
     ELSE IF P[j] = 93 THEN [ok |-> TRUE, items |-> acc, i |-> j + 1]
     ELSE LET a == chr(j) IN
          IF ~a.ok THEN a
          ELSE IF a.i + 1 <= L /\ P[a.i] = 45 /\ P[a.i + 1] # 93
               THEN LET b == chr(a.i + 1) IN
                    IF ~b.ok THEN b
                    ELSE Items(P, b.i, Append(acc, IF a.c <= b.c THEN <<a.c, b.c>> ELSE <<b.c, a.c>>))
          ELSE Items(P, a.i, Append(acc, <<a.c, a.c>>))
Set(P, i) ==
  LET neg == i + 1 <= Len(P) /\ P[i + 1] = 94
      j == IF neg THEN i + 2 ELSE i + 1
      r == IF j <= Len(P) /\ P[j] = 93 THEN Items(P, j + 1, <<<<93, 93>>>>) ELSE Items(P, j, <<>>)
  IN IF r.ok THEN [ok |-> TRUE, n |-> Chr(neg, r.items), i |-> r.i] ELSE r

--------------------------------------------------------------------------------
Fail(e) == [err |-> e]
Last(s) == s[Len(s)]
PutLast(s, x) == [s EXCEPT ![Len(s)] = x]
\* acc: what the term consists of; beg: nothing an iterator applies to so far; lb: only an ordinary {; dol: $ found
RECURSIVE PAlt(_, _, _, _), PSeq(_, _, _, _, _, _, _)
PAlt(P, i, d, nl) ==
  LET r == PSeq(P, i, d, nl, <<>>, TRUE, FALSE) IN
  IF r.err # Valid \/ r.i > Len(P) \/ P[r.i] # 124 THEN (IF r.err # Valid THEN r ELSE [r EXCEPT !.n = <<r.n>>])
  ELSE LET q == PAlt(P, r.i + 1, d, nl) IN IF q.err # Valid THEN q ELSE [q EXCEPT !.n = <<r.n>> \o q.n]
PSeq(P, i, d, nl, acc, beg, lb) ==
  LET L == Len(P)
      stop(dol, j) == [err |-> Valid, n |-> Cat(acc), i |-> j, dol |-> dol]
      put(n, j) == PSeq(P, j, d, nl, Append(acc, n), FALSE, FALSE)
      iter(min, max, j) == IF beg THEN (IF lb THEN Fail(Open) ELSE Fail(Invalid))
                           ELSE PSeq(P, j, d, nl, PutLast(acc, Rep(Last(acc), min, max)), FALSE, FALSE)
      c == P[i]
  IN IF i > L THEN (IF d > 0 THEN Fail(Invalid) ELSE stop(FALSE, i))
     ELSE CASE c = 41 -> IF d = 0 THEN Fail(Invalid) ELSE stop(FALSE, i)
            [] c = 124 -> stop(FALSE, i)
            [] c = 92 -> IF i + 1 > L THEN Fail(Invalid) ELSE put(Lit(P[i + 1]), i + 2)
            [] c = 46 -> put(Chr(TRUE, IF nl THEN <<<<10, 10>>, <<13, 13>>>> ELSE <<>>), i + 1)
            [] c = 40 -> LET r == PAlt(P, i + 1, d + 1, nl) IN
                         IF r.err # Valid THEN r
                         ELSE IF r.i > L THEN Fail(Invalid)
                         ELSE put(Alt(r.n), r.i + 1)
            [] c = 42 -> iter(0, -1, i + 1)
            [] c = 43 -> iter(1, -1, i + 1)
            [] c = 63 -> iter(0, 1, i + 1)
            [] c = 91 -> LET r == Set(P, i) IN IF r.ok THEN put(r.n, r.i) ELSE Fail(Invalid)
            [] c = 123 ->
                 LET b == Brace(P, i) IN
                 IF b.t = "id" THEN PSeq(P, b.i, d, nl, IF acc = <<>> THEN <<Id(b.v)>> ELSE PutLast(acc, Cat(<<Last(acc), Id(b.v)>>)), beg, lb)
                 ELSE IF b.t = "rep" /\ ~beg THEN iter(b.min, b.max, b.i)
                 ELSE IF b.t = "rep" /\ lb THEN Fail(Open)
                 ELSE PSeq(P, i + 1, d, nl, Append(acc, Lit(123)), beg, beg)
            [] OTHER -> IF c = 36 /\ i = L THEN (IF d > 0 THEN Fail(Invalid) ELSE stop(TRUE, i + 1))
                        ELSE put(Lit(c), i + 1)

\* flags: 1 begin, 2 end, 4 newline, 8 not greedy
Flag(f, b) == (f \div b) % 2 = 1
Parse(P, f) ==
  LET hat == Len(P) > 0 /\ P[1] = 94
      r == PAlt(P, IF hat THEN 2 ELSE 1, 0, Flag(f, 4))
  IN IF r.err # Valid THEN r
     ELSE [err |-> Valid, n |-> Alt(r.n), from |-> hat \/ Flag(f, 1), to |-> r.dol \/ Flag(f, 2), nl |-> Flag(f, 4), greedy |-> ~Flag(f, 8)]

--------------------------------------------------------------------------------
(* V: for every position of the string (1: before its first character), the highest  *)
(* identifier on a way that leads there; -1 if there is none.                         *)
Max(a, b) == IF a >= b THEN a ELSE b
In(n, c) == (\E q \in 1..Len(n.items) : n.items[q][1] <= c /\ c <= n.items[q][2]) # n.neg
Join(V, W) == TLCEval([j \in 1..Len(V) |-> Max(V[j], W[j])])
RECURSIVE Ev(_, _, _), EvSeq(_, _, _, _), EvAlt(_, _, _, _), Times(_, _, _, _), Maybe(_, _, _, _), Close(_, _, _)
Ev(n, S, V) ==
  CASE n.k = "chr" -> TLCEval([j \in 1..Len(V) |-> IF j > 1 /\ V[j - 1] >= 0 /\ In(n, S[j - 1]) THEN V[j - 1] ELSE -1])
    [] n.k = "id" -> TLCEval([j \in 1..Len(V) |-> IF V[j] < 0 THEN -1 ELSE Max(V[j], n.v)])
    [] n.k = "seq" -> EvSeq(n.xs, 1, S, V)
    [] n.k = "alt" -> EvAlt(n.xs, 1, S, V)
    [] n.k = "rep" -> LET W == Times(n.x, n.min, S, V) IN IF n.max = -1 THEN Close(n.x, S, W) ELSE Maybe(n.x, n.max - n.min, S, W)
EvSeq(xs, i, S, V) == IF i > Len(xs) THEN V ELSE LET W == TLCEval(Ev(xs[i], S, V)) IN EvSeq(xs, i + 1, S, W)
EvAlt(xs, i, S, V) == LET W == TLCEval(Ev(xs[i], S, V)) IN IF i = Len(xs) THEN W ELSE Join(W, EvAlt(xs, i + 1, S, V))
Times(x, n, S, V) == IF n = 0 THEN V ELSE LET W == TLCEval(Ev(x, S, V)) IN Times(x, n - 1, S, W)
Maybe(x, n, S, V) == IF n = 0 THEN V ELSE LET W == Join(V, Ev(x, S, V)) IN IF W = V THEN V ELSE Maybe(x, n - 1, S, W)
Close(x, S, V) == LET W == Join(V, Ev(x, S, V)) IN IF W = V THEN V ELSE Close(x, S, W)

NoMatch == [b |-> -1, e |-> 0, id |-> 0]
BeginAt(re, S, b) == re.from => (b = 0 \/ (re.nl /\ S[b] \in NL))
EndAt(re, S, e) == re.to => (e = Len(S) \/ (re.nl /\ S[e + 1] \in NL))
RECURSIVE From(_, _, _)
From(re, S, b) ==
  IF b > Len(S) THEN NoMatch
  ELSE IF ~BeginAt(re, S, b) THEN From(re, S, b + 1)
  ELSE LET V == TLCEval(Ev(re.n, S, [j \in 1..(Len(S) + 1) |-> IF j = b + 1 THEN 0 ELSE -1]))
           ends == {e \in b..Len(S) : V[e + 1] >= 0 /\ EndAt(re, S, e)}
           e == IF re.greedy THEN CHOOSE x \in ends : \A y \in ends : y <= x ELSE CHOOSE x \in ends : \A y \in ends : x <= y
       IN IF ends = {} THEN From(re, S, b + 1) ELSE [b |-> b, e |-> e, id |-> V[e + 1]]
Result(re, S) == From(re, S, 0)
==================================================================================
