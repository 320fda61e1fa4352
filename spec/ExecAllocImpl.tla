------------------------------ MODULE ExecAllocImpl -----------------------------
(* The allocator as it is built: chunks cut into blocks, a list of free blocks      *)
(* searched from its head, neighbours merged when one is freed.  Sizes in units of  *)
(* 8 bytes.  TLC checks exhaustively on small chunks that it satisfies ExecAlloc,   *)
(* and generates the histories that are replayed on the real allocator.             *)
EXTENDS ExecAlloc, Json
CONSTANTS ChunkU,     \* units of a chunk (8192 in sljit)
          Sizes,      \* bytes that may be asked for
          MaxLive, MaxChunks, Depth, Rand, Faults

VARIABLES ch,         \* chunk -> sequence of blocks [s |-> units, u |-> number of the allocation or 0]; <<>> when given back
          fl,         \* free list, head first: <<chunk, start>>
          nid,        \* allocations made
          live,       \* as in ExecAlloc
          alloc, total, hist
vars == <<ch, fl, nid, live, alloc, total, hist>>

HU == 2   MinU == 8
Units(n) == LET s == (n + 16 + 7) \div 8 IN IF s < MinU THEN MinU ELSE s
RECURSIVE Start(_, _)
Start(bs, k) == IF k = 1 THEN 0 ELSE Start(bs, k - 1) + bs[k - 1].s
Idx(c, st) == CHOOSE k \in 1..Len(ch[c]) : Start(ch[c], k) = st
Sz(f) == ch[f[1]][Idx(f[1], f[2])].s
Map == [c \in {c \in 1..Len(ch) : ch[c] # <<>>} |-> 8 * (Start(ch[c], Len(ch[c])) + ch[c][Len(ch[c])].s + HU)]
Cut(bs, k, new) == SubSeq(bs, 1, k - 1) \o new \o SubSeq(bs, k + 1, Len(bs))
Drop(q, x) == SelectSeq(q, LAMBDA y : y # x)
Blk(c, st, n) == [c |-> c, off |-> 8 * (st + HU), n |-> n]
Rec(o) == hist' = Append(hist, o)
Alive == DOMAIN live

Malloc(n) == LET s == Units(n)
                 fit == {k \in 1..Len(fl) : Sz(fl[k]) >= s} IN
  /\ Cardinality(Alive) < MaxLive /\ nid' = nid + 1
  /\ IF fit # {} THEN
       LET k == CHOOSE k \in fit : \A j \in fit : k <= j
           c == fl[k][1] st == fl[k][2] q == Idx(c, st) z == Sz(fl[k]) IN
       IF z > s + 8 THEN
            /\ ch' = [ch EXCEPT ![c] = Cut(@, q, <<[s |-> z - s, u |-> 0], [s |-> s, u |-> nid + 1]>>)]
            /\ fl' = fl /\ alloc' = alloc + s /\ total' = total
            /\ live' = live @@ (nid + 1 :> Blk(c, st + z - s, n)) /\ Rec([o |-> "m", n |-> n, c |-> c, off |-> 8 * (st + z - s + HU), new |-> 0])
       ELSE /\ ch' = [ch EXCEPT ![c] = Cut(@, q, <<[s |-> z, u |-> nid + 1]>>)]
            /\ fl' = Drop(fl, fl[k]) /\ alloc' = alloc + z /\ total' = total
            /\ live' = live @@ (nid + 1 :> Blk(c, st, n)) /\ Rec([o |-> "m", n |-> n, c |-> c, off |-> 8 * (st + HU), new |-> 0])
     ELSE
       LET cu == (((s + HU + ChunkU - 1) \div ChunkU) * ChunkU) - HU
           c == Len(ch) + 1 IN
       /\ Cardinality({x \in 1..Len(ch) : ch[x] # <<>>}) < MaxChunks
       /\ total' = total + cu /\ live' = live @@ (nid + 1 :> Blk(c, 0, n)) /\ Rec([o |-> "m", n |-> n, c |-> c, off |-> 8 * HU, new |-> 8 * (cu + HU)])
       /\ IF cu > s + 8 THEN /\ ch' = Append(ch, <<[s |-> s, u |-> nid + 1], [s |-> cu - s, u |-> 0]>>)
                             /\ fl' = <<<<c, s>>>> \o fl /\ alloc' = alloc + s
          ELSE ch' = Append(ch, <<[s |-> cu, u |-> nid + 1]>>) /\ fl' = fl /\ alloc' = alloc + cu

\* the system refuses the next region: nothing changes when one is needed
Fault(n) == /\ \A k \in 1..Len(fl) : Sz(fl[k]) < Units(n)
            /\ Rec([o |-> "x", n |-> n, c |-> 0, off |-> 0, new |-> 0]) /\ UNCHANGED <<ch, fl, nid, live, alloc, total>>

Free(i) == LET c == live[i].c
               bs == ch[c]
               q == CHOOSE k \in 1..Len(bs) : bs[k].u = i
               a1 == alloc - bs[q].s
               pf == q > 1 /\ bs[q - 1].u = 0
               nf == q < Len(bs) /\ bs[q + 1].u = 0
               lo == IF pf THEN q - 1 ELSE q
               hi == IF nf THEN q + 1 ELSE q
               st == Start(bs, lo)
               z == Start(bs, hi) + bs[hi].s - st
               fl1 == IF pf THEN fl ELSE <<<<c, st>>>> \o fl
               fl2 == IF nf THEN Drop(fl1, <<c, Start(bs, q + 1)>>) ELSE fl1
               whole == lo = 1 /\ hi = Len(bs)
               give == whole /\ total - z > (a1 * 3) \div 2 IN
  /\ alloc' = a1 /\ live' = [j \in Alive \ {i} |-> live[j]] /\ nid' = nid
  /\ IF give THEN ch' = [ch EXCEPT ![c] = <<>>] /\ fl' = Drop(fl2, <<c, st>>) /\ total' = total - z
     ELSE ch' = [ch EXCEPT ![c] = SubSeq(bs, 1, lo - 1) \o <<[s |-> z, u |-> 0]>> \o SubSeq(bs, hi + 1, Len(bs))] /\ fl' = fl2 /\ total' = total
  /\ Rec([o |-> "f", n |-> i, c |-> IF give THEN c ELSE 0, off |-> 0, new |-> 0])

Wholly(c) == Len(ch[c]) = 1 /\ ch[c][1].u = 0
Unused == /\ ch' = [c \in 1..Len(ch) |-> IF ch[c] # <<>> /\ Wholly(c) THEN <<>> ELSE ch[c]]
          /\ fl' = SelectSeq(fl, LAMBDA f : ~Wholly(f[1]))
          /\ LET W == {c \in 1..Len(ch) : ch[c] # <<>> /\ Wholly(c)} IN
               total' = total - (IF W = {} THEN 0 ELSE LET RECURSIVE Sum(_) Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN ch[x][1].s + Sum(S \ {x}) IN Sum(W))
          /\ Rec([o |-> "u", n |-> 0, c |-> 0, off |-> 0, new |-> 0]) /\ UNCHANGED <<nid, live, alloc>>

\* sizes that just fill, just split or just miss a free block
Near == {8 * Sz(fl[k]) - 16 + d : k \in 1..Len(fl), d \in {-80, -72, -64, -8, -1, 0, 1}}
Init == ch = <<>> /\ fl = <<>> /\ nid = 0 /\ live = <<>> /\ alloc = 0 /\ total = 0 /\ hist = <<>>
Random ==
  \E k \in {RandomElement(1..20)} :
    IF k <= 9 \/ Alive = {} THEN
      \E n \in {IF k <= 3 /\ fl # <<>> THEN RandomElement({x \in Near : x > 0} \cup {1}) ELSE RandomElement(Sizes)} :
         IF k = 9 /\ Faults /\ (\A j \in 1..Len(fl) : Sz(fl[j]) < Units(n)) THEN Fault(n)
         ELSE IF Cardinality(Alive) < MaxLive THEN Malloc(n) ELSE \E i \in {RandomElement(Alive)} : Free(i)
    ELSE IF k <= 18 THEN \E i \in {RandomElement(Alive)} : Free(i)
    ELSE Unused
Step == IF Rand THEN Random
        ELSE (\E n \in Sizes : Malloc(n)) \/ (\E i \in Alive : Free(i)) \/ Unused
Next == Len(hist) < Depth /\ Step
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------------
\* what users rely on
Contract == Good(Map, live)
\* no free block has a free neighbour; the free list holds exactly the free blocks
Merged == \A c \in 1..Len(ch) : \A k \in 1..(Len(ch[c]) - 1) : ch[c][k].u # 0 \/ ch[c][k + 1].u # 0
FreeOf(c) == {<<c, Start(ch[c], k)>> : k \in {k \in 1..Len(ch[c]) : ch[c][k].u = 0}}
Listed == /\ {fl[k] : k \in 1..Len(fl)} = UNION {FreeOf(c) : c \in 1..Len(ch)}
          /\ Cardinality({fl[k] : k \in 1..Len(fl)}) = Len(fl)
RECURSIVE SumU(_, _)
SumU(bs, used) == IF bs = <<>> THEN 0 ELSE (IF (Head(bs).u # 0) \/ ~used THEN Head(bs).s ELSE 0) + SumU(Tail(bs), used)
RECURSIVE SumC(_, _)
SumC(k, used) == IF k = 0 THEN 0 ELSE SumU(ch[k], used) + SumC(k - 1, used)
Counted == alloc = SumC(Len(ch), TRUE) /\ total = SumC(Len(ch), FALSE)
\* a region is asked for only when there is no room
Frugal == [][Len(ch') > Len(ch) => ~Room(Map, live, hist'[Len(hist')].n)]_vars
GaveBack == [][hist' # hist => (hist'[Len(hist')].o = "u" => \A c \in DOMAIN Map' : Holds(live', c))]_vars
View == <<[c \in 1..Len(ch) |-> [k \in 1..Len(ch[c]) |-> <<ch[c][k].s, IF ch[c][k].u = 0 THEN 0 ELSE live[ch[c][k].u].n>>]], fl, alloc, total>>
Inv == Contract /\ Merged /\ Listed /\ Counted
EmitLong == (Len(hist) = Depth => PrintT(<<"H", ToJson(hist)>>))
=================================================================================
