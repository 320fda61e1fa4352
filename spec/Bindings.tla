-------------------------------- MODULE Bindings --------------------------------
(* The host modules "libuv" and "libffi" as wasm modules that import them see them:   *)
(* threads, mutexes, conditions, dynamic libraries, foreign calls and callbacks.      *)
(* Thread 0 is the one the history runs on, the others were made by uv_thread_create. *)
(* A call that has to wait is recorded as "blocks"; the step that lets it go on also  *)
(* waits for it to return.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Depth, Part, FfiOn

VARIABLES thr,    \* thread -> "none", "idle", "lock" m, "wait" c m : [s, m, c]
          mut,    \* mutex -> [on, owner]   (owner -1: free)
          cnd,    \* condition -> on
          lib,    \* library slot -> 0 none, 1 open, 2 failed to open
          cif,    \* cif slot -> 0 or the number of its signature
          cb,     \* callback slot -> [on, sig, f, ud, raw]
          hist
vars == <<thr, mut, cnd, lib, cif, cb, hist>>
Sigs == JsonDeserialize(IOEnv.SIGS)      \* [args, ret, fix]: letters i l f d p v; fix >= 0: the number of named arguments before ...
T == 0..3
M == 1..3
K == 1..2
R(S) == {RandomElement(S)}
Rec(o, t, a, obs) == hist' = Append(hist, [o |-> o, t |-> t, a |-> a, r |-> obs])
Un(k) == UNCHANGED k
Byte(k) == IF RandomElement(1..2) = 1 THEN RandomElement({0, 0, 1, 65, 127, 128, 255}) ELSE RandomElement(0..255)
\* (TLCEval of what does not depend on the state would be drawn once only)
RECURSIVE Bytes(_)
Bytes(n) == IF n = 0 THEN <<>> ELSE Append(Bytes(n - 1), Byte(n))
Size(c) == IF c \in {"i", "f"} THEN 4 ELSE IF c = "v" THEN 0 ELSE 8
Cut(c, v) == SubSeq(v, 1, Size(c))
Idle(t) == thr[t].s = "idle"
Not == [s |-> "none", m |-> 0, c |-> 0]
Rest == [s |-> "idle", m |-> 0, c |-> 0]
EBUSY == -16
ETIMEDOUT == -110

--------------------------------------------------------------------------------
\* threads: the function gets its argument, on a stack of its own, whose contents stay as they are
Create(t, k) == \E v \in {Bytes(8)} :
  /\ Idle(t) /\ thr[k].s = "none" /\ thr' = [thr EXCEPT ![k] = Rest]
  /\ Un(<<mut, cnd, lib, cif, cb>>) /\ Rec("create", t, <<k, v>>, <<1, v, 1>>)
Holding(k) == \E m \in M : mut[m].on /\ mut[m].owner = k
Exit(k) == /\ k # 0 /\ Idle(k) /\ ~Holding(k) /\ thr' = [thr EXCEPT ![k] = Not]
           /\ Un(<<mut, cnd, lib, cif, cb>>) /\ Rec("exit", k, <<>>, <<1>>)

Waiters(m) == {t \in T : thr[t].s \in {"lock", "wait"} /\ thr[t].m = m}
MutInit(t, m) == /\ Idle(t) /\ ~mut[m].on /\ mut' = [mut EXCEPT ![m] = [on |-> TRUE, owner |-> -1]]
                 /\ Un(<<thr, cnd, lib, cif, cb>>) /\ Rec("mutex_init", t, <<m>>, <<1>>)
MutDestroy(t, m) == /\ Idle(t) /\ mut[m].on /\ mut[m].owner = -1 /\ Waiters(m) = {} /\ mut' = [mut EXCEPT ![m].on = FALSE]
                    /\ Un(<<thr, cnd, lib, cif, cb>>) /\ Rec("mutex_destroy", t, <<m>>, <<>>)
Lock(t, m) ==
  /\ Idle(t) /\ mut[m].on /\ mut[m].owner # t
  /\ IF mut[m].owner = -1
     THEN mut' = [mut EXCEPT ![m].owner = t] /\ Un(thr) /\ Rec("lock", t, <<m>>, <<>>)
     ELSE t # 0 /\ {x \in T : thr[x].s = "lock" /\ thr[x].m = m} = {} /\ thr' = [thr EXCEPT ![t] = [s |-> "lock", m |-> m, c |-> 0]] /\ Un(mut) /\ Rec("lock", t, <<m>>, <<"blocks">>)
  /\ Un(<<cnd, lib, cif, cb>>)
TryLock(t, m) ==
  /\ Idle(t) /\ mut[m].on
  /\ mut' = IF mut[m].owner = -1 THEN [mut EXCEPT ![m].owner = t] ELSE mut
  /\ Un(<<thr, cnd, lib, cif, cb>>) /\ Rec("trylock", t, <<m>>, <<IF mut[m].owner = -1 THEN 0 ELSE EBUSY>>)
\* the one that waits for the mutex gets it
Next2(m) == {x \in T : thr[x].s = "lock" /\ thr[x].m = m}
Release(m, owner) == [mut EXCEPT ![m].owner = IF Next2(m) = {} THEN -1 ELSE CHOOSE x \in Next2(m) : TRUE]
Unlock(t, m) ==
  /\ Idle(t) /\ mut[m].on /\ mut[m].owner = t
  /\ mut' = Release(m, t) /\ thr' = [x \in T |-> IF x \in Next2(m) THEN Rest ELSE thr[x]]
  /\ Un(<<cnd, lib, cif, cb>>) /\ Rec("unlock", t, <<m>>, <<IF Next2(m) = {} THEN -1 ELSE CHOOSE x \in Next2(m) : TRUE>>)

CondInit(t, c) == /\ Idle(t) /\ ~cnd[c] /\ cnd' = [cnd EXCEPT ![c] = TRUE] /\ Un(<<thr, mut, lib, cif, cb>>) /\ Rec("cond_init", t, <<c>>, <<1>>)
Sleeping(c) == {x \in T : thr[x].s = "wait" /\ thr[x].c = c}
CondDestroy(t, c) == /\ Idle(t) /\ cnd[c] /\ Sleeping(c) = {} /\ cnd' = [cnd EXCEPT ![c] = FALSE]
                     /\ Un(<<thr, mut, lib, cif, cb>>) /\ Rec("cond_destroy", t, <<c>>, <<>>)
\* waiting gives the mutex back; one at a time on a condition
Wait(t, c, m) ==
  /\ t # 0 /\ Idle(t) /\ cnd[c] /\ mut[m].on /\ mut[m].owner = t /\ Sleeping(c) = {}
  /\ mut' = Release(m, t) /\ thr' = [x \in T |-> IF x = t THEN [s |-> "wait", m |-> m, c |-> c] ELSE IF x \in Next2(m) THEN Rest ELSE thr[x]]
  /\ Un(<<cnd, lib, cif, cb>>) /\ Rec("wait", t, <<c, m>>, <<"blocks", IF Next2(m) = {} THEN -1 ELSE CHOOSE x \in Next2(m) : TRUE>>)
\* the one that waits goes on to wait for the mutex; who signals holds it, which is how he knows that the other waits by now
Signal(t, c) ==
  /\ Idle(t) /\ cnd[c]
  /\ IF Sleeping(c) = {} THEN Un(thr)
     ELSE LET w == CHOOSE x \in Sleeping(c) : TRUE IN
          mut[thr[w].m].owner = t /\ Next2(thr[w].m) = {} /\ thr' = [thr EXCEPT ![w] = [s |-> "lock", m |-> thr[w].m, c |-> 0]]
  /\ Un(<<mut, cnd, lib, cif, cb>>) /\ Rec("signal", t, <<c>>, <<>>)
Version(t) == Idle(t) /\ Un(<<thr, mut, cnd, lib, cif, cb>>) /\ Rec("version", t, <<>>, <<1>>)

--------------------------------------------------------------------------------
DlOpen(t, s, there) == /\ Idle(t) /\ lib[s] = 0 /\ lib' = [lib EXCEPT ![s] = IF there = 1 THEN 1 ELSE 2]
                       /\ Un(<<thr, mut, cnd, cif, cb>>) /\ Rec("dlopen", t, <<s, there>>, <<1, IF there = 1 THEN 0 ELSE -1>>)
\* n: 0 is no symbol of the library
DlSym(t, s, n) == /\ Idle(t) /\ lib[s] = 1 /\ Un(<<thr, mut, cnd, lib, cif, cb>>) /\ Rec("dlsym", t, <<s, n>>, <<IF n = 0 THEN 0 ELSE n, IF n = 0 THEN -1 ELSE 0>>)
DlClose(t, s) == /\ Idle(t) /\ lib[s] # 0 /\ lib' = [lib EXCEPT ![s] = 0] /\ Un(<<thr, mut, cnd, cif, cb>>) /\ Rec("dlclose", t, <<s>>, <<>>)

--------------------------------------------------------------------------------
\* how a cif is made: from a description, or from the types of ffi_built_in_types
NewCif(t, s, g, raw) ==
  /\ Idle(t) /\ cif[s] = 0 /\ (raw = 0 => Sigs[g].fix < 0)
  /\ cif' = [cif EXCEPT ![s] = g]
  /\ Un(<<thr, mut, cnd, lib, cb>>) /\ Rec("newcif", t, <<s, g, raw>>, <<1, 0>>)
\* no end within the 256 bytes that are looked at; an unknown convention
Long(t) == Idle(t) /\ Un(<<thr, mut, cnd, lib, cif, cb>>) /\ Rec("long", t, <<>>, <<0, 1>>)
Abi(t) == Idle(t) /\ Un(<<thr, mut, cnd, lib, cif, cb>>) /\ Rec("abi", t, <<>>, <<2>>)
Using(s) == \E k \in K : cb[k].on /\ cb[k].cif = s
DelCif(t, s) == /\ Idle(t) /\ cif[s] # 0 /\ ~Using(s) /\ cif' = [cif EXCEPT ![s] = 0] /\ Un(<<thr, mut, cnd, lib, cb>>) /\ Rec("delcif", t, <<s>>, <<>>)
RECURSIVE Many(_)
Many(n) == IF n = 0 THEN <<>> ELSE Append(Many(n - 1), Bytes(8))
Vals(g) == Many(Len(Sigs[g].args))
Arrive(g, vs) == [k \in 1..Len(vs) |-> Cut(Sigs[g].args[k], vs[k])]
\* a foreign function of that signature gets the arguments and gives a result
Call(t, s, raw) == \E vs \in {IF cif[s] = 0 THEN <<>> ELSE Vals(cif[s])}, v \in {Bytes(8)} :
  /\ Idle(t) /\ cif[s] # 0 /\ Un(<<thr, mut, cnd, lib, cif, cb>>)
  /\ Rec("call", t, <<s, cif[s], raw, v, vs>>, <<Arrive(cif[s], vs), Cut(Sigs[cif[s]].ret, v)>>)
\* a callback is a foreign function that calls the module's function f with its user data
NewCb(t, k, s, f, raw) == \E ud \in {Bytes(8)} :
  /\ Idle(t) /\ cif[s] # 0 /\ Sigs[cif[s]].fix < 0 /\ ~cb[k].on
  /\ cb' = [cb EXCEPT ![k] = [on |-> TRUE, sig |-> cif[s], cif |-> s, f |-> f, ud |-> ud, raw |-> raw]]
  /\ Un(<<thr, mut, cnd, lib, cif>>) /\ Rec("newcb", t, <<k, s, f, ud, raw>>, <<1, 1, 0>>)
\* the closure is prepared again: another function, other user data
Prepare(t, k, f) == \E ud \in {Bytes(8)} :
  /\ Idle(t) /\ cb[k].on /\ cb[k].raw = 1 /\ cb' = [cb EXCEPT ![k].f = f, ![k].ud = ud]
  /\ Un(<<thr, mut, cnd, lib, cif>>) /\ Rec("prepare", t, <<k, cb[k].cif, f, ud>>, <<0>>)
\* it is called from a foreign function any number of times, from any thread
CallCb(t, k) == \E vs \in {IF cb[k].on THEN Vals(cb[k].sig) ELSE <<>>}, v \in {Bytes(8)} :
  /\ Idle(t) /\ cb[k].on /\ Un(<<thr, mut, cnd, lib, cif, cb>>)
  /\ Rec("callcb", t, <<k, cb[k].sig, v, vs, cb[k].raw, cb[k].cif>>, <<cb[k].f, cb[k].ud, 1, Arrive(cb[k].sig, vs), Cut(Sigs[cb[k].sig].ret, v)>>)
DelCb(t, k) == /\ Idle(t) /\ cb[k].on /\ cb' = [cb EXCEPT ![k].on = FALSE] /\ Un(<<thr, mut, cnd, lib, cif>>) /\ Rec("delcb", t, <<k, cb[k].raw>>, <<>>)
Enabled(t) == Idle(t) /\ Un(<<thr, mut, cnd, lib, cif, cb>>) /\ Rec("enabled", t, <<>>, <<FfiOn>>)
\* without libffi the other functions do nothing
Noop(t, f) == Idle(t) /\ Un(<<thr, mut, cnd, lib, cif, cb>>) /\ Rec("noop", t, <<f>>, <<>>)

Init == /\ thr = [t \in T |-> IF t = 0 THEN Rest ELSE Not] /\ mut = [m \in M |-> [on |-> FALSE, owner |-> -1]] /\ cnd = [c \in K |-> FALSE]
        /\ lib = [s \in K |-> 0] /\ cif = [s \in M |-> 0] /\ cb = [k \in K |-> [on |-> FALSE, sig |-> 0, cif |-> 0, f |-> 0, ud |-> <<>>, raw |-> 0]] /\ hist = <<>>
Threads(t) ==
  \/ \E k \in R(T \ {0}) : Create(t, k)
  \/ \E k \in R(T) : RandomElement(1..4) = 1 /\ Exit(k)
  \/ \E m \in R(M) : MutInit(t, m)
  \/ \E m \in R(M) : RandomElement(1..4) = 1 /\ MutDestroy(t, m)
  \/ \E m \in R(M) : Lock(t, m)
  \/ \E m \in R(M) : TryLock(t, m)
  \/ \E m \in R(M) : Unlock(t, m)
  \/ \E x \in T, m \in M : x = mut[m].owner /\ Unlock(x, m)
  \/ \E c \in R(K) : CondInit(t, c)
  \/ \E c \in R(K) : RandomElement(1..4) = 1 /\ CondDestroy(t, c)
  \/ \E x \in T, m \in M, c \in R(K) : x = mut[m].owner /\ Wait(x, c, m)
  \/ \E x \in T, c \in K : RandomElement(1..2) = 1 /\ Signal(x, c)
Libs(t) ==
  \/ \E s \in R(K), there \in R({0, 1, 1, 1}) : DlOpen(t, s, there)
  \/ \E s \in R(K), n \in R({0} \cup (1..Len(Sigs))) : DlSym(t, s, n)
  \/ \E s \in R(K) : RandomElement(1..3) = 1 /\ DlClose(t, s)
  \/ RandomElement(1..6) = 1 /\ Version(t)
  \/ RandomElement(1..6) = 1 /\ Enabled(t)
Foreign(t) ==
  \/ \E s \in R(M), g \in R(1..Len(Sigs)), raw \in R({0, 1}) : NewCif(t, s, g, raw)
  \/ \E s \in R(M) : RandomElement(1..3) = 1 /\ DelCif(t, s)
  \/ \E s \in R(M), raw \in R({0, 1}) : Call(t, s, raw)
  \/ \E s \in R(M), k \in R(K), f \in R({1, 2}), raw \in R({0, 1}) : NewCb(t, k, s, f, raw)
  \/ \E k \in R(K), f \in R({1, 2}) : RandomElement(1..2) = 1 /\ Prepare(t, k, f)
  \/ \E k \in R(K) : CallCb(t, k)
  \/ \E k \in R(K) : RandomElement(1..3) = 1 /\ DelCb(t, k)
  \/ \E x \in R(1..12) : IF x = 1 THEN Long(t) ELSE x = 2 /\ Abi(t)
Next == Len(hist) < Depth /\ \E t \in R({x \in T : Idle(x)}) :
  \/ Part # "foreign" /\ Threads(t)
  \/ Libs(t)
  \/ Part # "threads" /\ FfiOn = 1 /\ Foreign(t)
  \/ FfiOn = 0 /\ \E f \in R(0..9) : Noop(t, f)
Spec == Init /\ [][Next]_vars
EmitLong == Len(hist) = Depth => PrintT(<<"H", ToJson(hist)>>)
\* one owner, who is not waiting for it; nobody waits for a free mutex
Exclusive == \A m \in M : mut[m].on => /\ (mut[m].owner >= 0 => thr[mut[m].owner].s # "none" /\ ~(thr[mut[m].owner].s = "lock" /\ thr[mut[m].owner].m = m))
                                       /\ (mut[m].owner = -1 => Next2(m) = {})
CanGoOn == \E t \in T : Idle(t)
=================================================================================
