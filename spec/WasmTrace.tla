-------------------------------- MODULE WasmTrace -------------------------------
(* Checks recorded executions of the real JIT against Wasm.tla.                     *)
(* IOEnv.CASES names an ndjson file; each line is one case:                         *)
(*   mods : the module descriptions (the same ones the binaries were encoded from)  *)
(*   ev   : what the harness did and observed, in order                             *)
(* One initial state per case.  A case whose events can all be consumed by machine  *)
(* behaviour ends in "ok"; a case whose machine traps or reaches an open value ends *)
(* there (pwart leaves what follows open); any disagreement ends in "bad".          *)
EXTENDS WasmLoad, Json, IOUtils

VARIABLE l            \* next event
tvars == <<mvars, l>>

Cases == ndJsonDeserialize(IOEnv.CASES)
TMods(p) == Cases[p].mods
Ev == Cases[pid].ev
E == Ev[l]
More == l <= Len(Ev)

---------------------------------------------------------------------------------
\* does the real value r match the specified value v ?
ValOk(v, r) == Len(v) = Len(r) /\ IF v[1] < 0 THEN IsNaN(r) ELSE v = r
ValsOk(vs, rs) == Len(vs) = Len(rs) /\ \A k \in 1..Len(vs) : ValOk(vs[k], rs[k])
\* bytes may be open where a NaN was stored
BytesOk(v, r) == \A k \in 1..16 : v[k] < 0 \/ v[k] = r[k]
\* d: the non-zero 16-byte chunks <<chunk, b1..b16>> of the real memory
MemOk(m, d) ==
  LET real == [c \in {d[k][1] : k \in 1..Len(d)} |-> <<>>]
      R(c) == LET k == CHOOSE k \in 1..Len(d) : d[k][1] = c IN Tail(d[k])
  IN /\ \A k \in 1..Len(d) : BytesOk(ChunkGet(m.ch, d[k][1]), Tail(d[k]))
     /\ \A c \in DOMAIN m.ch : c \in DOMAIN real \/ BytesOk(m.ch[c], Zero(16))

ExportIdx(i, n, k) == {j \in 1..Len(Mod(i).exp) : Mod(i).exp[j].n = n /\ Mod(i).exp[j].k = k}
\* what a lookup of name n with kind k in instance i denotes: the index it exports, or -1
Lookup(i, n, k) == LET S == ExportIdx(i, n, k) IN
  IF S = {} THEN -1 ELSE Mod(i).exp[CHOOSE j \in S : \A j2 \in S : j <= j2].x
\* the store address an import entry of an event is bound to: [i, n, k] for an instance's export,
\* [h] host function, [b] builtin, [a] store address created by the host
Bind(b) == IF b.i > 0 THEN
             LET x == Lookup(b.i, b.n, b.k) IN
             CASE b.k = 0 -> FnAddr(b.i, x) [] b.k = 1 -> insts[b.i].ta[x + 1]
               [] b.k = 2 -> insts[b.i].ma[x + 1] [] b.k = 3 -> insts[b.i].ga[x + 1]
           ELSE IF b.k = 0 THEN b.a ELSE b.a[1]
BindAll(bs, k) == LET s == SelectSeq(bs, LAMBDA b : b.k = k) IN [j \in 1..Len(s) |-> Bind(s[j])]
Imports(bs) == [f |-> BindAll(bs, 0), t |-> BindAll(bs, 1), m |-> BindAll(bs, 2), g |-> BindAll(bs, 3)]

---------------------------------------------------------------------------------
Verdict(v) == /\ st' = v /\ PrintT(<<v, Cases[pid].id, l>>)
              /\ UNCHANGED <<pid, stk, frs, mems, tabs, globs, insts, l>>
Bad(what, spec) == PrintT(<<"mismatch", Cases[pid].id, l, what, spec>>) /\ Verdict("bad")
Consume == l' = l + 1
Is(e) == E.e = e
\* consume the event by action A if it agrees with the specification, else report
On(ok, what, spec, A) == IF ok THEN A /\ Consume ELSE Bad(what, spec)

\* what an import entry is bound to: whether anything, its current and its maximal size
Bound(b) ==
  LET ok == IF b.i > 0 THEN Lookup(b.i, b.n, b.k) >= 0 ELSE b.a # <<>>
      a == Bind(b) IN
  IF ~ok THEN [ok |-> FALSE, sz |-> 0, mx |-> 0]
  ELSE CASE b.k = 1 -> [ok |-> TRUE, sz |-> Len(tabs[a]), mx |-> Len(tabs[a])]
         [] b.k = 2 -> [ok |-> TRUE, sz |-> mems[a].pg, mx |-> mems[a].mx]
         [] OTHER -> [ok |-> TRUE, sz |-> 0, mx |-> 0]
TLoad == st = "env" /\ Is("load") /\
  LET md == Mods(pid)[E.m]
      bd == TLCEval([k \in 1..Len(E.b) |-> Bound(E.b[k])]) IN
  IF E.ok = 1 THEN On(~MustRefuse(md, bd) /\ E.nomem = 0, "unsupported module loaded", E, Instantiate(E.m, Imports(E.b)))
  ELSE On(~MustLoad(md, bd) \/ E.nomem = 1, "load failed", E, UNCHANGED mvars)
\* inspection of an instance: bytes of memory 0 and entries of table 0
TInsp == st = "env" /\ Is("insp") /\
  LET hm == insts[E.i].ma # <<>>  ht == insts[E.i].ta # <<>>
      m == mems[insts[E.i].ma[1]]  t == tabs[insts[E.i].ta[1]] IN
  On(/\ E.ms = (IF hm THEN m.pg * 65536 ELSE 0) /\ E.tc = (IF ht THEN Len(t) ELSE 0)
     /\ (E.ms > 0 => BytesOk(ChunkGet(m.ch, 0), E.m)) /\ (E.tc > 0 => ValsOk(t, E.t)),
     "inspection", <<IF hm THEN m ELSE <<>>, IF ht THEN t ELSE <<>>>>, UNCHANGED mvars)
THostMem == st = "env" /\ Is("hmem") /\ Consume /\
  mems' = Append(mems, [pg |-> E.pg, mx |-> E.mx, ch |-> <<>>]) /\ UNCHANGED <<pid, st, stk, frs, tabs, globs, insts>>
THostTab == st = "env" /\ Is("htab") /\ Consume /\
  tabs' = Append(tabs, E.v) /\ UNCHANGED <<pid, st, stk, frs, mems, globs, insts>>
THostGlob == st = "env" /\ Is("hglob") /\ Consume /\
  globs' = Append(globs, E.v) /\ UNCHANGED <<pid, st, stk, frs, mems, tabs, insts>>
\* host writes to shared objects
TPokeGlob == st = "env" /\ Is("pglob") /\ Consume /\
  globs' = [globs EXCEPT ![insts[E.i].ga[E.k + 1]] = E.v] /\ UNCHANGED <<pid, st, stk, frs, mems, tabs, insts>>
TPokeMem == st = "env" /\ Is("pmem") /\ Consume /\
  mems' = [mems EXCEPT ![insts[E.i].ma[E.k + 1]] = MemWrite(@, ZeroExt(E.a, 8), E.v)] /\ UNCHANGED <<pid, st, stk, frs, tabs, globs, insts>>
TPokeTab == st = "env" /\ Is("ptab") /\ Consume /\
  tabs' = [tabs EXCEPT ![insts[E.i].ta[E.k + 1]][E.x + 1] = E.v] /\ UNCHANGED <<pid, st, stk, frs, mems, globs, insts>>
TCall == st = "env" /\ Is("call") /\ Consume /\
  HostCalls(FnAddr(E.i, E.f), FnType(E.i, E.f), E.a)
TRet == st = "ret" /\ Is("ret") /\
  LET n == Len(E.r) IN
  On(n <= Len(stk) /\ ValsOk(TopN(n), E.r), "results", IF n <= Len(stk) THEN TopN(n) ELSE stk, TakeResults(n))
THost == st = "host" /\ Is("h") /\
  On(Fr.f = E.f /\ ValsOk(HostArgs, E.a), "host call", <<Fr.f, HostArgs>>, HostEntered)
THostRet == st = "env" /\ Is("hr") /\ Len(frs) > 0 /\ Consume /\ HostReturns(E.r)
TMem == st = "env" /\ Is("mem") /\
  LET m == mems[insts[E.i].ma[E.k + 1]] IN
  On(E.pg = m.pg /\ E.mx = m.mx /\ MemOk(m, E.d), "memory", m, UNCHANGED mvars)
TGlob == st = "env" /\ Is("glob") /\
  LET g == globs[insts[E.i].ga[E.k + 1]] IN On(ValOk(g, E.v), "global", g, UNCHANGED mvars)
TTab == st = "env" /\ Is("tab") /\
  LET t == tabs[insts[E.i].ta[E.k + 1]] IN On(ValsOk(t, E.v), "table", t, UNCHANGED mvars)
\* lookup of a name: E.r is the canonical address the harness recognised, <<>> if nothing was found
TFind == st = "env" /\ Is("find") /\
  LET x == Lookup(E.i, E.n, E.k)
      a == IF x < 0 THEN <<>> ELSE CASE E.k = 0 -> FnAddr(E.i, x) [] E.k = 1 -> <<insts[E.i].ta[x + 1]>>
                          [] E.k = 2 -> <<insts[E.i].ma[x + 1]>> [] E.k = 3 -> <<insts[E.i].ga[x + 1]>>
  IN On(E.r = a, "lookup", a, UNCHANGED mvars)
\* start function of an instance: E.r as for TFind
TStart == st = "env" /\ Is("start") /\
  LET x == Mod(E.i).start  a == IF x < 0 THEN <<>> ELSE FnAddr(E.i, x) IN
  On(E.r = a, "start function", a, UNCHANGED mvars)

Handled == \/ st = "env" /\ (E.e \in {"load", "hmem", "htab", "hglob", "pglob", "pmem", "ptab", "call", "mem", "glob", "tab", "find", "start", "insp"}
                             \/ (E.e = "hr" /\ Len(frs) > 0))
           \/ st = "ret" /\ E.e = "ret"
           \/ st = "host" /\ E.e = "h"

TNext ==
  \/ Step /\ UNCHANGED l
  \/ /\ st \in {"env", "ret", "host"} /\ ~IsBuiltin /\ More
     /\ \/ Handled /\ (TLoad \/ THostMem \/ THostTab \/ THostGlob \/ TPokeGlob \/ TPokeMem \/ TPokeTab \/ TCall \/ TRet
                       \/ THost \/ THostRet \/ TMem \/ TGlob \/ TTab \/ TFind \/ TStart \/ TInsp)
        \/ ~Handled /\ Bad("unexpected event", <<st, E.e, IF st = "host" THEN <<Fr.f, HostArgs>> ELSE <<>>>>)
  \/ /\ st \in {"env", "ret", "host"} /\ ~IsBuiltin /\ ~More
     /\ IF st = "env" /\ frs = <<>> THEN Verdict("ok") ELSE Bad("trace ends early", st)
  \/ /\ st \in {"trap", "undet"} /\ frs # <<>> /\ PrintT(<<st, Cases[pid].id, l>>)
     /\ frs' = <<>> /\ UNCHANGED <<pid, st, stk, store, l>>

TInit == pid \in 1..Len(Cases) /\ MachineInit /\ l = 1
TSpec == TInit /\ [][TNext]_tvars
NeverBad == st # "bad"
=================================================================================
