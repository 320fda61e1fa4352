-------------------------------- MODULE ExecAlloc -------------------------------
(* Executable memory as its users see it: regions obtained from the system (`map`,  *)
(* number -> size in bytes) and live blocks [c |-> region, off, n |-> bytes asked    *)
(* for, tag |-> what was written into it].  Where a block is placed is open.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Align == 8
Slack == 300      \* more than any header, rounding or unsplit rest around a block
End(b) == b.off + b.n
Inside(map, b) == b.c \in DOMAIN map /\ b.off >= 0 /\ End(b) <= map[b.c] /\ b.off % Align = 0
Apart(a, b) == a.c # b.c \/ End(a) <= b.off \/ End(b) <= a.off
\* live: number -> block
Good(map, live) == /\ \A i \in DOMAIN live : Inside(map, live[i])
                   /\ \A i, j \in DOMAIN live : i # j => Apart(live[i], live[j])
\* the places where room begins in region c, and how far it reaches
Marks(live, c) == {0} \cup {End(live[i]) : i \in {i \in DOMAIN live : live[i].c = c}}
Next0(map, live, c, m) == LET S == {live[i].off : i \in {i \in DOMAIN live : live[i].c = c /\ live[i].off >= m}} IN
                          IF S = {} THEN map[c] ELSE CHOOSE x \in S : \A y \in S : x <= y
\* there is room for n bytes in a region already obtained
Room(map, live, n) == \E c \in DOMAIN map : \E m \in Marks(live, c) : Next0(map, live, c, m) - m >= n + Slack
Holds(live, c) == \E i \in DOMAIN live : live[i].c = c
=================================================================================
