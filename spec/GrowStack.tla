-------------------------------- MODULE GrowStack -------------------------------
(* The growable stack of sljit: a reserved region that ends at a fixed place and    *)
(* whose usable part begins at `start`.  Places are distances below the end.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Page,       \* sizes are rounded up to this
          Regions,    \* TRUE: each stack is one region of the system
          Depth
VARIABLES s,          \* stack -> <<>> or [max, start, top, mem |-> sequence of <<place, byte>> written and still above start]
          hist
vars == <<s, hist>>
Round(n) == ((n + Page - 1) \div Page) * Page
Obs(t) == [q \in {1, 2} |-> IF t[q] = <<>> THEN <<>> ELSE <<t[q].max, t[q].start, t[q].top, [k \in 1..Len(t[q].mem) |-> t[q].mem[k][2]]>>]
Count(t) == IF Regions THEN Cardinality({q \in {1, 2} : t[q] # <<>>}) ELSE 0
Rec(o, ok) == hist' = Append(hist, [o |-> o, known |-> [q \in {1, 2} |-> IF s'[q] = <<>> THEN <<>> ELSE [k \in 1..Len(s'[q].mem) |-> s'[q].mem[k][1]]],
                                    e |-> [ok |-> ok, regions |-> Count(s'), s |-> <<Obs(s')[1], Obs(s')[2]>>]])
\* place p (distance below the end) is usable as a start: inside the reserved region, and not the end itself
Valid(t, p) == p >= 1 /\ p <= t.max

Alloc(q, b, m) == LET ok == m = -1 \/ (b >= 1 /\ b <= m) IN
  IF m = -1 \/ ~ok THEN s' = s /\ Rec(<<"sa", q, b, m>>, 0)
  ELSE s' = [s EXCEPT ![q] = [max |-> Round(m), start |-> b, top |-> 0, mem |-> <<>>]] /\ Rec(<<"sa", q, b, m>>, 1)
Free(q) == s' = [s EXCEPT ![q] = <<>>] /\ Rec(<<"sf", q>>, 1)
Resize(q, p) == IF Valid(s[q], p)
  THEN s' = [s EXCEPT ![q].start = p, ![q].mem = SelectSeq(@, LAMBDA w : w[1] <= p)] /\ Rec(<<"sr", q, p>>, 1)
  ELSE s' = s /\ Rec(<<"sr", q, p>>, 0)
Top(q, p) == s' = [s EXCEPT ![q].top = p] /\ Rec(<<"st", q, p>>, 1)
Write(q, p, v) == s' = [s EXCEPT ![q].mem = Append(SelectSeq(@, LAMBDA w : w[1] # p), <<p, v>>)] /\ Rec(<<"sw", q, p, v>>, 1)

Init == s = <<<<>>, <<>>>> /\ hist = <<>>
Maxes == {1, 2, 100, 4095, 4096, 4097, 5000, 8192, 12288, 20000, 65536, 100000, -1}
Pick(S) == RandomElement(S)
Near(t) == {t.max, t.max + 1, t.max - 1, 1, 0, -1, -4096, t.start, t.start + 1, t.start - 1, t.max + 5000, (t.start \div 4096) * 4096, (t.start \div 4096) * 4096 + 4096, (t.start \div 4096) * 4096 + 1}
Step == \E r \in {Pick(1..100)} : \E q \in {Pick({1, 2})} :
  IF s[q] = <<>> THEN \E m \in {Pick(Maxes)} :
       \E b \in {IF m = -1 THEN 1 ELSE IF r < 20 THEN Pick({0, 1, m, m + 1, m + 4096}) ELSE Pick(1..m)} : Alloc(q, b, m)
  ELSE IF r <= 4 THEN Free(q)
  ELSE IF r <= 10 THEN \E p \in {Pick(0..s[q].start)} : Top(q, p)
  ELSE IF r <= 55 THEN \E p \in {IF r <= 30 THEN Pick(Near(s[q])) ELSE Pick(1..s[q].max)} : Resize(q, p)
  ELSE \E p \in {IF r <= 75 THEN s[q].start ELSE IF r <= 80 THEN 1 ELSE Pick(1..s[q].start)} : \E v \in {Pick(1..255)} : Write(q, p, v)
Next == Len(hist) < Depth /\ Step
Spec == Init /\ [][Next]_vars
Sane == \A q \in {1, 2} : s[q] = <<>> \/ (s[q].start \in 1..s[q].max /\ s[q].max % Page = 0 /\ \A k \in 1..Len(s[q].mem) : s[q].mem[k][1] \in 1..s[q].start)
EmitLong == (Len(hist) = Depth => PrintT(<<"H", ToJson(hist)>>))
=================================================================================
