------------------------------- MODULE RegexTrace -------------------------------
(* Checks recorded histories of the regex compiler and its match objects: compile a   *)
(* pattern, begin, feed, reset and free match objects in any order.  After every step  *)
(* on a match object its result is what Regex says of the string it was fed so far;    *)
(* once it says that it is finished, nothing that follows changes its result.          *)
EXTENDS Regex, Json, IOUtils
VARIABLES pid, l, st, re, str, fin
vars == <<pid, l, st, re, str, fin>>
Cases == ndJsonDeserialize(IOEnv.CASES)
C == Cases[pid]
E == C.ev[l]
None == [err |-> -1]
Verdict(v) == st' = v /\ PrintT(<<v, C.id, l>>) /\ UNCHANGED <<pid, l, re, str, fin>>
Bad(what, x) == PrintT(<<"mismatch", C.id, l, what, x>>) /\ Verdict("bad")
Same(r, e) == r.b = e.b /\ (r.b # -1 => r.e = e.e /\ r.id = e.id)
\* the match object k has been fed s
Judge(k, s, wasfin) ==
  LET r == Result(re, s) IN
  IF ~Same(r, E) THEN Bad("result", <<s, r>>)
  ELSE IF wasfin = 1 /\ E.fin = 0 THEN Bad("finished and then not", s)
  ELSE str' = (k :> s) @@ str /\ fin' = (k :> E.fin) @@ fin /\ l' = l + 1 /\ UNCHANGED <<pid, st, re>>
Step == st = "run" /\
  IF l > Len(C.ev) THEN Verdict("ok")
  ELSE CASE E.o = "compile" ->
              LET r == Parse(C.pat, C.flags) IN
              IF r.err = Open THEN Verdict("undet")
              ELSE IF E.failed = 1 /\ E.err = 1 THEN (IF E.left # 0 THEN Bad("memory was kept", E.left) ELSE l' = l + 1 /\ UNCHANGED <<pid, st, re, str, fin>>)
              ELSE IF E.failed = 1 /\ E.err # 2 THEN Bad("memory error was not reported", E.err)
              ELSE IF r.err # E.err THEN Bad("compile", r.err)
              ELSE IF E.err # 0 /\ E.left # 0 THEN Bad("memory was kept", E.left)
              ELSE re' = r /\ l' = l + 1 /\ UNCHANGED <<pid, st, str, fin>>
         [] E.o = "begin" -> Judge(E.k, <<>>, 0)
         [] E.o = "reset" -> Judge(E.k, <<>>, 0)
         [] E.o = "feed" -> Judge(E.k, str[E.k] \o E.s, fin[E.k])
         [] E.o = "end" -> IF E.left # 0 THEN Bad("memory was kept", E.left) ELSE l' = l + 1 /\ UNCHANGED <<pid, st, re, str, fin>>
         [] OTHER -> Bad("event", E.o)
Init == pid \in 1..Len(Cases) /\ l = 1 /\ st = "run" /\ re = None /\ str = <<>> /\ fin = <<>>
Spec == Init /\ [][Step]_vars
=================================================================================
