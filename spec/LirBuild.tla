------------------------------- MODULE LirBuild -------------------------------
(* How sljit's compiler tells that it ran out of memory.                          *)
(* A compiler holds one error.  The first call that is refused memory sets it, and *)
(* from then on every call does nothing and answers with that same error, until    *)
(* the compiler is freed; objects (labels, jumps, constants, memory, code, a        *)
(* serialized form) are handed out exactly by the calls that succeed.  Generating   *)
(* the code ends the building: COMPILED is an error like the others.               *)
EXTENDS Naturals
OK == 0  COMPILED == 1  ALLOC == 2  EXALLOC == 3
VARIABLES comp,  \* "none": no compiler yet, "open", "over": freed or never created
          err,   \* the compiler's error
          blocks, \* does anything belong to the compiler
          ans    \* the answer of the last call: [rc, null]
vars == <<comp, err, blocks, ans>>
\* the error after a call during which memory (f) or executable memory (g) was refused
After(e, f, g) == IF e # OK THEN e ELSE IF f THEN ALLOC ELSE IF g THEN EXALLOC ELSE OK
Create(f) == /\ comp = "none" /\ err' = OK
             /\ comp' = (IF f THEN "over" ELSE "open") /\ blocks' = ~f /\ ans' = [rc |-> OK, null |-> f]
\* a call that answers with a code
Call(f) == /\ comp = "open" /\ err' = After(err, f, FALSE) /\ ans' = [rc |-> err', null |-> FALSE] /\ UNCHANGED <<comp, blocks>>
\* a call that answers with an object: a label, a jump, a constant, memory, the serialized compiler
Object(f) == /\ comp = "open" /\ err' = After(err, f, FALSE) /\ ans' = [rc |-> err', null |-> err' # OK] /\ UNCHANGED <<comp, blocks>>
SetMemoryError == /\ comp = "open" /\ err' = After(err, TRUE, FALSE) /\ ans' = [rc |-> OK, null |-> FALSE] /\ UNCHANGED <<comp, blocks>>
Generate(f, g) == /\ comp = "open" /\ LET e == After(err, f, g) IN
                     /\ err' = (IF e = OK THEN COMPILED ELSE e) /\ ans' = [rc |-> err', null |-> e # OK]
                  /\ UNCHANGED <<comp, blocks>>
\* a compiler made from the serialized form: another one; it exists or leaves nothing
Deserialize(f, foreign) == comp = "open" /\ ans' = [rc |-> OK, null |-> f \/ foreign] /\ UNCHANGED <<comp, err, blocks>>
Free == comp = "open" /\ comp' = "over" /\ blocks' = FALSE /\ ans' = [rc |-> OK, null |-> FALSE] /\ UNCHANGED err
Init == comp = "none" /\ err = OK /\ blocks = FALSE /\ ans = [rc |-> OK, null |-> FALSE]
Next == \/ \E f, g \in BOOLEAN : Create(f) \/ Call(f) \/ Object(f) \/ Generate(f, g) \/ Deserialize(f, g)
        \/ SetMemoryError \/ Free
Spec == Init /\ [][Next]_vars
----
Inv == /\ (comp # "open") => ~blocks
       /\ (comp = "open") => blocks
       /\ err \in {OK, COMPILED, ALLOC, EXALLOC}
Sticky == [][(comp = "open" /\ err # OK) => err' = err]_vars
\* a refusal is never silent: once something was refused no code comes into being
NoCodeAfterError == [][\A f, g \in BOOLEAN : (Generate(f, g) /\ ~ans'.null) => (err = OK /\ err' = COMPILED /\ ~f /\ ~g)]_vars
===============================================================================
