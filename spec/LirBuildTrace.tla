----------------------------- MODULE LirBuildTrace -----------------------------
(* Checks what was recorded while the real code built programs with memory refused *)
(* here and there: every recorded step is one of LirBuild's, with its answer.       *)
EXTENDS LirBuild, Sequences, Json, IOUtils, TLC
VARIABLES pid, l, st
tvars == <<comp, err, blocks, ans, pid, l, st>>
Cases == ndJsonDeserialize(IOEnv.CASES)
C == Cases[pid]
E == C.ev[l]
B(x) == x = 1
Verdict(v) == st' = v /\ PrintT(<<v, C.id, l>>) /\ UNCHANGED <<pid, l, comp, err, blocks, ans>>
Bad(what) == PrintT(<<"mismatch", C.id, l, what, E, err>>) /\ Verdict("bad")
\* the step as the specification takes it: [comp, err, blocks, null, rc]
Model == CASE E.k = "create" -> [c |-> IF B(E.f) THEN "over" ELSE "open", e |-> OK, null |-> B(E.f), rc |-> OK]
           [] E.k = "c" -> LET e == After(err, B(E.f), FALSE) IN [c |-> "open", e |-> e, null |-> FALSE, rc |-> e]
           [] E.k \in {"n", "s"} -> LET e == After(err, B(E.f), FALSE) IN [c |-> "open", e |-> e, null |-> e # OK, rc |-> OK]
           [] E.k = "setmem" -> [c |-> "open", e |-> After(err, TRUE, FALSE), null |-> FALSE, rc |-> OK]
           [] E.k = "gen" -> LET e == After(err, B(E.f), B(E.g)) IN [c |-> "open", e |-> IF e = OK THEN COMPILED ELSE e, null |-> e # OK, rc |-> OK]
           \* a buffer may be too small; one that is large is not
           [] E.k = "genbuf" -> LET e == After(err, B(E.f), B(E.null) /\ E.x < 4) IN [c |-> "open", e |-> IF e = OK THEN COMPILED ELSE e, null |-> e # OK, rc |-> OK]
           [] E.k = "d" -> [c |-> "open", e |-> err, null |-> B(E.f), rc |-> OK]
           [] E.k = "u" -> [c |-> "open", e |-> err, null |-> TRUE, rc |-> OK]
           [] E.k \in {"x", "r"} -> [c |-> "open", e |-> err, null |-> FALSE, rc |-> OK]
           [] OTHER -> [c |-> "over", e |-> err, null |-> FALSE, rc |-> OK]
Matches(m) == LET a == <<m.null, m.rc, m.e>> IN
  CASE E.k = "create" -> IF m.null THEN Create(TRUE) ELSE Create(FALSE)
    [] E.k = "c" -> IF B(E.f) THEN Call(TRUE) ELSE Call(FALSE)
    [] E.k \in {"n", "s"} -> IF B(E.f) THEN Object(TRUE) ELSE Object(FALSE)
    [] E.k = "setmem" -> SetMemoryError
    [] E.k = "gen" -> Generate(B(E.f), B(E.g))
    [] E.k = "genbuf" -> Generate(B(E.f), B(E.null) /\ E.x < 4)
    [] E.k \in {"d", "u"} -> Deserialize(B(E.f), E.k = "u")
    [] E.k = "end" /\ comp = "open" -> Free
    [] OTHER -> UNCHANGED vars
Step == st = "run" /\
  IF l > Len(C.ev) THEN (IF comp = "over" /\ C.ev[Len(C.ev)].k = "end" THEN Verdict("ok") ELSE PrintT(<<"mismatch", C.id, l, "ends in the middle", C.at, err>>) /\ Verdict("bad"))
  ELSE IF comp # "open" /\ E.k \notin {"create", "end"} THEN Bad("a step without a compiler")
  ELSE IF E.k = "odd" THEN Bad("something else than the specification says")
  ELSE IF E.k = "end" THEN
       IF E.x # 0 THEN Bad("memory given back to the wrong place")
       ELSE IF E.live # 0 THEN Bad("memory is not given back")
       ELSE Matches([null |-> FALSE, rc |-> OK, e |-> err]) /\ l' = l + 1 /\ UNCHANGED <<pid, st>>
  ELSE LET m == Model IN
       IF B(E.null) # m.null THEN Bad(IF m.null THEN "an object although there is none" ELSE "no object")
       ELSE IF E.rc # m.rc THEN Bad("the answer")
       ELSE IF m.c = "open" /\ E.err # m.e THEN Bad("the error")
       ELSE IF m.c = "over" /\ E.live # 0 THEN Bad("memory is not given back")
       ELSE IF E.k = "x" /\ B(E.f) /\ err = OK THEN Bad("a refusal went unnoticed")
       ELSE IF E.k \in {"s", "d", "u", "r"} /\ E.x # 1 THEN Bad("size, or memory left over")
       ELSE IF E.k = "genbuf" /\ E.x % 2 # 1 THEN Bad("the code is not in the buffer")
       ELSE Matches(m) /\ l' = l + 1 /\ UNCHANGED <<pid, st>>
TInit == Init /\ pid \in 1..Len(Cases) /\ l = 1 /\ st = "run"
TSpec == TInit /\ [][Step]_tvars
=================================================================================
