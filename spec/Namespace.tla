-------------------------------- MODULE Namespace -------------------------------
(* The namespace as its users see it: a map from names to modules, the callbacks    *)
(* of host modules, and what imports, lookups and resolved symbols give.            *)
(* `hist` records every operation with what has to be observed after it; TLC        *)
(* generates histories, lib/beh.py replays them on the real namespace.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K,          \* number of namespaces
          NameSeq,    \* the names used, a sequence
          Hosts,      \* host modules used, a subset of 1..5
          Ways,       \* 0 high level functions, 1 pwart_namespace_define_module
          Depth, MaxInst, Rand

N2 == <<"A", "B">>
N3 == <<"A", "B", "META">>
N7 == <<"A", "B", "C", "D", "E", "F", "META">>
N18 == <<"A", "B", "P1", "P2", "P3", "P4", "P5", "P6", "P7", "P8", "Q1", "Q2", "Q3", "Q4", "Q5", "Q6", "Q7", "META">>
PN == {"P1", "P2", "P3", "P4", "P5", "P6", "P7", "P8"}
QN == {"Q1", "Q2", "Q3", "Q4", "Q5", "Q6", "Q7"}

VARIABLES nss,        \* namespace -> [live, map]
          insts,      \* wasm instances in order of definition
          cells,      \* values of the exported globals: [v, owner]
          hist
vars == <<nss, insts, cells, hist>>
Names == {NameSeq[j] : j \in 1..Len(NameSeq)}
META == "META"        \* stands for pwart_namespace_meta
None == [t |-> 0, x |-> 0]
H(h) == [t |-> 1, x |-> h]
W(i) == [t |-> 2, x |-> i]
OnAttach == {1, 5}    \* hosts with an attach callback
OnDetach == {1, 2, 5}
\* host 5 defines host 4 under the names PN when it is attached; when it is detached it removes these and defines host 4 under QN

---------------------------------------------------------------------------------
RECURSIVE Callable(_), FV(_)
CellOk(c) == IF cells[c].owner = 0 THEN TRUE ELSE insts[cells[c].owner].live
\* may the function f of instance i be called
Callable(i) == /\ insts[i].live
               /\ (insts[i].kind = "f" /\ insts[i].src.t = 2) => Callable(insts[i].src.x)
               /\ insts[i].kind = "g" => CellOk(insts[i].cell)
FV(i) == LET s == insts[i] IN
  CASE s.kind = "c" -> 10 * i
    [] s.kind = "f" -> 1000 + (IF s.src.t = 1 THEN 100 + s.src.x ELSE FV(s.src.x))
    [] s.kind = "g" -> cells[s.cell].v
\* what symbols f and g of a module denote: -1 nothing, -2 something that must not be used any more
F(e) == CASE e.t = 0 -> -1
          [] e.t = 1 -> IF e.x = 0 THEN -1 ELSE 100 + e.x
          [] e.t = 2 -> IF Callable(e.x) THEN FV(e.x) ELSE -2
CellOf(e) == CASE e.t = 0 -> 0 [] e.t = 1 -> (IF e.x \in 1..3 THEN e.x ELSE 0) [] e.t = 2 -> insts[e.x].cell
G(k, e) == IF e = H(0) THEN k
           ELSE IF CellOf(e) = 0 THEN -1 ELSE IF CellOk(CellOf(e)) THEN cells[CellOf(e)].v ELSE -2
Snap == [k \in 1..K |-> IF ~nss[k].live THEN <<>>
          ELSE [j \in 1..Len(NameSeq) |-> LET e == nss[k].map[NameSeq[j]] IN <<e.t, e.x, F(e), G(k, e)>>]]
Rec(o, k, n, a, w, ok, cb) == hist' = Append(hist, [o |-> o, k |-> k, n |-> n, a |-> a, w |-> w, ok |-> ok, cb |-> cb, snap |-> Snap'])

Detached(k, e) == IF e.t = 1 /\ e.x \in OnDetach THEN <<<<"d", e.x, k>>>> ELSE <<>>
Attached(k, e) == IF e.t = 1 /\ e.x \in OnAttach THEN <<<<"a", e.x, k>>>> ELSE <<>>
Dies(is, e) == IF e.t = 2 THEN [is EXCEPT ![e.x].live = FALSE] ELSE is
\* a step is [map, is, cb]; callbacks of the modules that go and come are part of it
RECURSIVE PutAll(_, _, _, _)
PutAll(k, s, S, e) == IF S = {} THEN s ELSE LET n == CHOOSE n \in S : TRUE IN
  PutAll(k, [map |-> [s.map EXCEPT ![n] = e], is |-> Dies(s.is, s.map[n]), cb |-> s.cb \o Detached(k, s.map[n])], S \ {n}, e)
Takes(k, s, n) == LET e == s.map[n]
                      t == [map |-> [s.map EXCEPT ![n] = None], is |-> Dies(s.is, e), cb |-> s.cb \o Detached(k, e)] IN
  IF e = H(5) THEN PutAll(k, PutAll(k, t, PN, None), QN, H(4)) ELSE t
Puts(k, s, n, e) == LET t == [s EXCEPT !.map[n] = e, !.cb = @ \o Attached(k, e)] IN IF e = H(5) THEN PutAll(k, t, PN, H(4)) ELSE t
Old(k) == [map |-> nss[k].map, is |-> insts, cb |-> <<>>]

---------------------------------------------------------------------------------
\* a host module is put into one namespace at a time
DefHost(k, n, h, w) == LET s == Puts(k, Takes(k, Old(k), n), n, H(h)) IN
  /\ \A q \in (1..K) \ {k} : nss[q].live => \A m \in Names : nss[q].map[m] # H(h)
  /\ h = 5 => n \notin PN \cup QN
  /\ nss' = [nss EXCEPT ![k].map = s.map]
  /\ insts' = s.is /\ UNCHANGED cells
  /\ Rec("dh", k, n, <<h>>, w, 1, s.cb)

\* kind c: no imports; f: imports function f of module fr; g: imports global g of module fr
Loads(k, kind, fr) == CASE kind = "c" -> TRUE [] kind = "bad" -> FALSE
  [] kind = "f" -> LET e == nss[k].map[fr] IN e.t = 2 \/ (e.t = 1 /\ e.x # 0)
  [] kind = "g" -> CellOf(nss[k].map[fr]) # 0
DefWasm(k, n, kind, fr, w) ==
  LET i == Len(insts) + 1  src == nss[k].map[fr]  s == Puts(k, Takes(k, Old(k), n), n, W(i)) IN
  IF ~Loads(k, kind, fr) THEN UNCHANGED <<nss, insts, cells>> /\ Rec("dw", k, n, <<kind, fr, 0>>, w, 0, <<>>)
  ELSE /\ Len(insts) < MaxInst
       /\ cells' = IF kind = "g" THEN cells ELSE Append(cells, [v |-> 7 + i, owner |-> i])
       /\ insts' = Append(s.is, [live |-> TRUE, kind |-> kind, src |-> IF kind = "c" THEN None ELSE src,
                                      cell |-> IF kind = "g" THEN CellOf(src) ELSE Len(cells) + 1])
       /\ nss' = [nss EXCEPT ![k].map = s.map]
       /\ Rec("dw", k, n, <<kind, fr, i>>, w, 1, s.cb)
Remove(k, n) == LET s == Takes(k, Old(k), n) IN
  /\ nss' = [nss EXCEPT ![k].map = s.map] /\ insts' = s.is /\ UNCHANGED cells
  /\ Rec("rm", k, n, <<>>, 0, 1, s.cb)
RECURSIVE Cat(_, _)
Cat(k, j) == IF j > Len(NameSeq) THEN <<>> ELSE Detached(k, nss[k].map[NameSeq[j]]) \o Cat(k, j + 1)
Delete(k) ==
  /\ nss' = [nss EXCEPT ![k].live = FALSE]
  /\ insts' = [i \in 1..Len(insts) |-> [insts[i] EXCEPT !.live = @ /\ ~(\E n \in Names : nss[k].map[n] = W(i))]]
  /\ UNCHANGED cells
  /\ Rec("del", k, "", <<>>, 0, 1, Cat(k, 1))
\* the host writes the global it gets for symbol g
SetG(k, n) == LET c == CellOf(nss[k].map[n]) IN
  /\ c # 0 /\ CellOk(c)
  /\ cells' = [cells EXCEPT ![c].v = 200 + Len(hist)] /\ UNCHANGED <<nss, insts>>
  /\ Rec("sg", k, n, <<200 + Len(hist)>>, 0, 1, <<>>)

---------------------------------------------------------------------------------
Init == /\ nss = [k \in 1..K |-> [live |-> TRUE, map |-> [n \in Names |-> IF n = META THEN H(0) ELSE None]]]
        /\ insts = <<>> /\ cells = [h \in 1..3 |-> [v |-> 10 + h, owner |-> 0]] /\ hist = <<>>
R(S) == IF Rand THEN {RandomElement(S)} ELSE S
Live == {k \in 1..K : nss[k].live}
\* deletion is rare in long histories
Next == /\ Len(hist) < Depth /\ Live # {}
        /\ \/ \E k \in R(Live), n \in R(Names), h \in R(Hosts), w \in R(Ways) : DefHost(k, n, h, w)
           \/ \E k \in R(Live), n \in R(Names), kind \in R({"c", "f", "g", "bad"}), fr \in R(Names), w \in R(Ways) :
                (kind \in {"c", "bad"} => Rand \/ fr = NameSeq[1]) /\ DefWasm(k, n, kind, fr, w)
           \/ \E k \in R(Live), n \in R(Names), kind \in R({"f", "g"}), fr \in R(Names), w \in R(Ways) : Rand /\ DefWasm(k, n, kind, fr, w)
           \/ \E k \in R(Live), n \in R(Names) : Remove(k, n)
           \/ \E k \in R(Live), n \in R(Names) : SetG(k, n)
           \/ \E k \in R(Live) : (~Rand \/ RandomElement(1..8) = 1 \/ Len(hist) = Depth - 1) /\ Delete(k)
Spec == Init /\ [][Next]_vars
View == <<nss, insts, cells>>
\* every transition of the reduced state graph, with the path that led to it
EmitStep == PrintT(<<"H", ToJson(hist')>>)
EmitLong == (Len(hist) = Depth \/ (Live = {} /\ hist # <<>>)) => PrintT(<<"H", ToJson(hist)>>)

---------------------------------------------------------------------------------
\* the listed property, stated over the history alone
RECURSIVE Last(_, _, _)
Last(j, k, n) == IF j = 0 THEN IF n = META THEN H(0) ELSE None
  ELSE LET r == hist[j] IN
    IF r.k = k /\ r.n = n /\ r.o = "rm" THEN None
    ELSE IF r.k = k /\ r.n = n /\ r.o = "dh" THEN H(r.a[1])
    ELSE IF r.k = k /\ r.n = n /\ r.o = "dw" /\ r.ok = 1 THEN W(r.a[3])
    ELSE IF <<"a", 5, k>> \in {r.cb[x] : x \in 1..Len(r.cb)} /\ n \in PN THEN H(4)
    ELSE IF r.o # "del" /\ <<"d", 5, k>> \in {r.cb[x] : x \in 1..Len(r.cb)} /\ n \in PN \cup QN THEN IF n \in PN THEN None ELSE H(4)
    ELSE Last(j - 1, k, n)
LastWins == \A k \in Live, n \in Names : nss[k].map[n] = Last(Len(hist), k, n)
RECURSIVE Count(_, _, _)
CountIn(cb, c, h) == Cardinality({x \in 1..Len(cb) : cb[x][1] = c /\ cb[x][2] = h})
Count(j, c, h) == IF j = 0 THEN 0 ELSE CountIn(hist[j].cb, c, h) + Count(j - 1, c, h)
Mapped(h) == Cardinality({p \in Live \X Names : nss[p[1]].map[p[2]] = H(h)})
Balance == \A h \in OnAttach \cap OnDetach : Count(Len(hist), "a", h) - Count(Len(hist), "d", h) = Mapped(h)
\* exactly the mapped instances of live namespaces are alive, each under one name
OneName == \A i \in 1..Len(insts) : insts[i].live <=> Cardinality({p \in Live \X Names : nss[p[1]].map[p[2]] = W(i)}) = 1
=================================================================================
