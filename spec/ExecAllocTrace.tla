----------------------------- MODULE ExecAllocTrace -----------------------------
(* Checks recorded histories of the real allocators against ExecAlloc.              *)
EXTENDS ExecAlloc, Json, IOUtils
VARIABLES pid, l, st, map, live
vars == <<pid, l, st, map, live>>
Cases == ndJsonDeserialize(IOEnv.CASES)
C == Cases[pid]
E == C.ev[l]
Verdict(v) == st' = v /\ PrintT(<<v, C.id, l>>) /\ UNCHANGED <<pid, l, map, live>>
Bad(what, x) == PrintT(<<"mismatch", C.id, l, what, x>>) /\ Verdict("bad")
\* regions obtained and given back during the step
Got == [k \in {E.maps[j][1] : j \in 1..Len(E.maps)} |-> (CHOOSE j \in 1..Len(E.maps) : E.maps[j][1] = k) ]
Map1 == [k \in (DOMAIN map \cup {E.maps[j][1] : j \in 1..Len(E.maps)}) |-> IF k \in DOMAIN map THEN map[k] ELSE E.maps[CHOOSE j \in 1..Len(E.maps) : E.maps[j][1] = k][2]]
Gone == {E.unmaps[j] : j \in 1..Len(E.unmaps)}
Map2 == [k \in DOMAIN Map1 \ Gone |-> Map1[k]]
\* the contents of every live block are what was written into it
Kept(lv) == /\ Len(E.mem) = Cardinality(DOMAIN lv)
            /\ \A j \in 1..Len(E.mem) : E.mem[j][1] \in DOMAIN lv /\ lv[E.mem[j][1]].tag = E.mem[j][2]
Go(lv) == map' = Map2 /\ live' = lv /\ l' = l + 1 /\ UNCHANGED <<pid, st>>
After(lv) == IF ~(Gone \subseteq DOMAIN Map1) THEN Bad("gave back a region it does not have", Gone)
             ELSE IF \E c \in Gone : Holds(lv, c) THEN Bad("gave back a region in use", Gone)
             ELSE IF ~Good(Map2, lv) THEN Bad("blocks", lv)
             ELSE IF ~Kept(lv) THEN Bad("contents", E.mem)
             ELSE Go(lv)
Step == st = "run" /\
  IF l > Len(C.ev) THEN Verdict("ok")
  ELSE CASE E.o = "m" ->
         IF E.c = 0 THEN
              IF E.failed = 0 THEN Bad("refused", E.n) ELSE After(live)
         ELSE IF E.c < 0 THEN Bad("outside of every region", E.off)
         ELSE IF C.reuse = 1 /\ E.maps # <<>> /\ Room(map, live, E.n) THEN Bad("room was not used again", E.n)
         ELSE After(live @@ (E.i :> [c |-> E.c, off |-> E.off, n |-> E.n, tag |-> E.tag]))
    [] E.o = "f" -> IF E.maps # <<>> THEN Bad("regions", E.maps) ELSE After([j \in DOMAIN live \ {E.i} |-> live[j]])
    [] E.o = "u" -> IF E.maps # <<>> THEN Bad("regions", E.maps)
                    ELSE IF \E c \in DOMAIN Map2 : ~Holds(live, c) THEN Bad("unused memory was kept", DOMAIN Map2)
                    ELSE After(live)
    \* several threads: regions and blocks in the order in which they came to be and went away
    [] E.o = "tr" -> map' = map @@ (E.i :> E.n) /\ l' = l + 1 /\ UNCHANGED <<pid, st, live>>
    [] E.o = "tx" -> IF E.i \notin DOMAIN map THEN Bad("gave back a region it does not have", E.i)
                     ELSE IF Holds(live, E.i) THEN Bad("gave back a region in use", E.i)
                     ELSE map' = [k \in DOMAIN map \ {E.i} |-> map[k]] /\ l' = l + 1 /\ UNCHANGED <<pid, st, live>>
    [] E.o = "tm" -> LET b == [c |-> E.c, off |-> E.off, n |-> E.n, tag |-> E.v] IN
                     IF E.c <= 0 THEN Bad("outside of every region, or refused", E.c)
                     ELSE IF ~Inside(map, b) \/ \E i \in DOMAIN live : ~Apart(live[i], b) THEN Bad("blocks", b)
                     ELSE live' = live @@ (E.i :> b) /\ l' = l + 1 /\ UNCHANGED <<pid, st, map>>
    [] E.o = "tf" -> IF E.v # live[E.i].tag THEN Bad("contents", E.i)
                     ELSE live' = [j \in DOMAIN live \ {E.i} |-> live[j]] /\ l' = l + 1 /\ UNCHANGED <<pid, st, map>>
    [] OTHER -> Bad("event", E.o)
Init == pid \in 1..Len(Cases) /\ l = 1 /\ st = "run" /\ map = <<>> /\ live = <<>>
Spec == Init /\ [][Step]_vars
=================================================================================
