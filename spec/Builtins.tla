-------------------------------- MODULE Builtins --------------------------------
(* The functions of pwart_builtin as a module that imports them sees them:           *)
(* allocated native memory, references into memories, files, modules loaded and      *)
(* imported from inside, own context, host definitions.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth

VARIABLES reg,     \* regions 1..NN allocated native memory, NN+1.. windows of the instance's memories: [on, b]
          files,   \* path -> [on, b]
          hnd,     \* handle slot -> [on, p, mode, pos]
          mods,    \* module name number -> 0 or its value
          hist
vars == <<reg, files, hnd, mods, hist>>
NN == 4
Win == {5, 6, 7}        \* memory 0 at its start, memory 0 at the end of its first page, memory 1
WinSize == 48
Paths == 1..3
Hnds == 1..2
ModNames == 1..3
R(S) == {RandomElement(S)}
Rec(o, a, obs) == hist' = Append(hist, [o |-> o, a |-> a, r |-> obs])
Un(k) == UNCHANGED k
Slice(b, o, n) == [k \in 1..n |-> b[o + k]]
Patch(b, o, v) == [k \in 1..Len(b) |-> IF k > o /\ k <= o + Len(v) THEN v[k - o] ELSE b[k]]
Known(s) == \A k \in 1..Len(s) : s[k] >= 0
Min(a, b) == IF a < b THEN a ELSE b
On == {k \in 1..7 : reg[k].on}
Byte(k) == IF RandomElement(1..2) = 1 THEN RandomElement({0, 0, 1, 65, 127, 128, 255}) ELSE RandomElement(0..255)
\* (TLCEval of what does not depend on the state would be drawn once only)
RECURSIVE Bytes(_)
Bytes(n) == IF n = 0 THEN <<>> ELSE Append(Bytes(n - 1), Byte(n))

\* native memory: new regions are distinct from all others and hold what is written to them
Alloc(k, n) == /\ ~reg[k].on /\ reg' = [reg EXCEPT ![k] = [on |-> TRUE, b |-> [j \in 1..n |-> -1]]]
               /\ Un(<<files, hnd, mods>>) /\ Rec("alloc", <<k, n>>, <<1>>)
Free(k) == /\ reg[k].on /\ reg' = [reg EXCEPT ![k] = [on |-> FALSE, b |-> <<>>]]
           /\ Un(<<files, hnd, mods>>) /\ Rec("free", <<k>>, <<>>)
\* stores and loads of the generated code, through native_memory or the instance's memories
Store(k, o, w) == \E v \in {Bytes(w)} :
  /\ reg[k].on /\ o + w <= Len(reg[k].b)
  /\ reg' = [reg EXCEPT ![k].b = Patch(@, o, v)] /\ Un(<<files, hnd, mods>>) /\ Rec("store", <<k, o, w, v>>, <<>>)
Load(k, o, w) ==
  /\ reg[k].on /\ o + w <= Len(reg[k].b)
  /\ Un(<<reg, files, hnd, mods>>) /\ Rec("load", <<k, o, w>>, Slice(reg[k].b, o, w))
\* a reference to byte o of region k is its address
RefOf(k, o) == /\ reg[k].on /\ o <= Len(reg[k].b) /\ Un(<<reg, files, hnd, mods>>) /\ Rec("refof", <<k, o>>, <<1>>)
Cast == \E v \in {Bytes(8)} : Un(<<reg, files, hnd, mods>>) /\ Rec("cast", <<v>>, v)
\* the ranges may overlap: the destination gets what the source held before
Copy(k, o, k2, o2, n) ==
  /\ reg[k].on /\ reg[k2].on /\ o + n <= Len(reg[k].b) /\ o2 + n <= Len(reg[k2].b)
  /\ reg' = [reg EXCEPT ![k].b = Patch(@, o, Slice(reg[k2].b, o2, n))]
  /\ Un(<<files, hnd, mods>>) /\ Rec("copy", <<k, o, k2, o2, n>>, <<>>)
RECURSIVE Nul(_, _)
Nul(b, o) == IF o >= Len(b) THEN -1 ELSE IF b[o + 1] < 0 THEN -1 ELSE IF b[o + 1] = 0 THEN 0
             ELSE LET r == Nul(b, o + 1) IN IF r < 0 THEN -1 ELSE r + 1
StrLen(k, o) == /\ reg[k].on /\ Nul(reg[k].b, o) >= 0
                /\ Un(<<reg, files, hnd, mods>>) /\ Rec("strlen", <<k, o>>, <<Nul(reg[k].b, o)>>)

\* files: one handle for a path at a time
Busy(p) == \E h \in Hnds : hnd[h].on /\ hnd[h].p = p
Fopen(h, p, mode) ==
  /\ ~hnd[h].on /\ ~Busy(p)
  /\ IF mode = "r" /\ ~files[p].on
     THEN Un(<<reg, files, hnd, mods>>) /\ Rec("fopen", <<h, p, mode>>, <<0, 2>>)     \* ENOENT
     ELSE /\ hnd' = [hnd EXCEPT ![h] = [on |-> TRUE, p |-> p, mode |-> mode, pos |-> 0]]
          /\ files' = IF mode = "w" \/ ~files[p].on THEN [files EXCEPT ![p] = [on |-> TRUE, b |-> <<>>]] ELSE files
          /\ Un(<<reg, mods>>) /\ Rec("fopen", <<h, p, mode>>, <<1, 0>>)
Fwrite(h, k, o, sz, cnt) ==
  /\ hnd[h].on /\ reg[k].on /\ o + sz * cnt <= Len(reg[k].b) /\ Known(Slice(reg[k].b, o, sz * cnt))
  /\ LET f == files[hnd[h].p].b  n == IF hnd[h].mode = "r" \/ sz = 0 THEN 0 ELSE cnt IN
     /\ files' = [files EXCEPT ![hnd[h].p].b = f \o Slice(reg[k].b, o, n * sz)]
     /\ Un(<<reg, hnd, mods>>) /\ Rec("fwrite", <<h, k, o, sz, cnt>>, <<n>>)
Fread(h, k, o, sz, cnt) ==
  /\ hnd[h].on /\ reg[k].on /\ o + sz * cnt <= Len(reg[k].b)
  /\ LET f == files[hnd[h].p].b  pos == hnd[h].pos  left == IF hnd[h].mode = "r" THEN Len(f) - pos ELSE 0
         n == IF sz = 0 THEN 0 ELSE Min(cnt, left \div sz)
         part == IF n < cnt /\ sz > 0 THEN left - n * sz ELSE 0     \* a partial element leaves its place open
         v == [j \in 1..(n * sz + part) |-> IF j <= n * sz THEN f[pos + j] ELSE -1] IN
     /\ reg' = [reg EXCEPT ![k].b = Patch(@, o, v)]
     /\ hnd' = [hnd EXCEPT ![h].pos = pos + n * sz + part]
     /\ Un(<<files, mods>>) /\ Rec("fread", <<h, k, o, sz, cnt>>, <<n>>)
Fclose(h) == /\ hnd[h].on /\ hnd' = [hnd EXCEPT ![h].on = FALSE] /\ Un(<<reg, files, mods>>)
             /\ Rec("fclose", <<h, hnd[h].p>>, <<0, files[hnd[h].p].b>>)
Stdio == Un(<<reg, files, hnd, mods>>) /\ Rec("stdio", <<>>, <<1, 1, 1>>)

\* modules of the same namespace, loaded, removed and imported from inside; kind: 0 plain, 1 value set by its start function,
\* 2 not loadable, 3 imports function f of module 1
LoadM(n, kind) == LET v == 100 * (Len(hist) + 1)  ok == kind \in {0, 1} \/ (kind = 3 /\ mods[1] > 0)  IN
  /\ ~(kind = 3 /\ n = 1)     \* it would replace the module it imports from
  /\ Un(<<reg, files, hnd>>)
  /\ IF ok THEN mods' = [mods EXCEPT ![n] = IF kind = 3 THEN -1 ELSE v] ELSE Un(mods)
  /\ Rec("loadm", <<n, kind, v>>, <<IF ok THEN 1 ELSE 0, IF ok /\ kind = 3 THEN mods[1] + 7 ELSE -1>>)
\* the value is called only right after loading when the module depends on another
UnloadM(n) == mods' = [mods EXCEPT ![n] = 0] /\ Un(<<reg, files, hnd>>) /\ Rec("unloadm", <<n>>, <<1>>)
Import(n, fld) == /\ Un(<<reg, files, hnd, mods>>)
                  /\ Rec("import", <<n, fld>>, IF mods[n] = 0 \/ fld = "zz" THEN <<0, 0>> ELSE IF mods[n] < 0 THEN <<1, -1>> ELSE <<1, mods[n]>>)
Self(i) == Un(<<reg, files, hnd, mods>>) /\ Rec("self", <<i>>, <<1>>)
HostDef == Un(<<reg, files, hnd, mods>>) /\ Rec("hostdef", <<>>, <<"__linux__", "__x86_64__">>)
Consts == Un(<<reg, files, hnd, mods>>) /\ Rec("consts", <<>>, <<1, 8>>)

Init == /\ reg = [k \in 1..7 |-> IF k <= NN THEN [on |-> FALSE, b |-> <<>>] ELSE [on |-> TRUE, b |-> [j \in 1..WinSize |-> 0]]]
        /\ files = [p \in Paths |-> [on |-> FALSE, b |-> <<>>]]
        /\ hnd = [h \in Hnds |-> [on |-> FALSE, p |-> 0, mode |-> "", pos |-> 0]]
        /\ mods = [n \in ModNames |-> 0] /\ hist = <<>>
Offs == {0, 1, 3, 4, 8, 13, 24, 40}
Open == {h \in Hnds : hnd[h].on}
Next == Len(hist) < Depth /\
  \/ \E k \in R(1..NN), n \in R({1, 8, 24, 40, 48}) : Alloc(k, n)
  \/ \E k \in R(1..NN) : RandomElement(1..3) = 1 /\ Free(k)
  \/ \E k \in R(On), o \in R(Offs), w \in R({1, 2, 4, 8}) : Store(k, o, w)
  \/ \E k \in R(On), o \in R(Offs), w \in R({1, 2, 4, 8}) : Load(k, o, w)
  \/ \E k \in R(On), w \in R({4, 8}) : \E o \in R(0..(Len(reg[k].b) - 1)) : Load(k, o, w)
  \/ \E k \in R(On), o \in R(Offs) : RefOf(k, o)
  \/ Cast
  \/ \E k \in R(On), k2 \in R(On), o \in R(Offs), o2 \in R(Offs), n \in R({0, 1, 7, 8, 16, 24}) : Copy(k, o, k2, o2, n)
  \/ \E k \in R(On), o \in R(0..20), o2 \in R(0..20), n \in R(1..28) : Copy(k, o, k, o2, n)
  \/ \E k \in R(On) : \E o \in R(0..(Len(reg[k].b) - 1)) : StrLen(k, o)
  \/ \E h \in R(Hnds), p \in R(Paths), mode \in R({"r", "w", "a"}) : Fopen(h, p, mode)
  \/ \E h \in R(Hnds), k \in R(On), o \in R(Offs), sz \in R({0, 1, 2, 3, 8}), cnt \in R(0..6) : Fwrite(h, k, o, sz, cnt)
  \/ \E h \in R(Hnds), k \in R(On), o \in R(Offs), sz \in R({0, 1, 2, 3, 8}), cnt \in R(0..6) : Fread(h, k, o, sz, cnt)
  \/ \E h \in R(Hnds) : RandomElement(1..2) = 1 /\ Fclose(h)
  \/ \E n \in R(ModNames), kind \in R({0, 0, 1, 2, 3}) : LoadM(n, kind)
  \/ \E n \in R(ModNames) : RandomElement(1..2) = 1 /\ UnloadM(n)
  \/ \E n \in R(ModNames), fld \in R({"f", "f", "f", "zz"}) : Import(n, fld)
  \/ \E x \in R({1, 2, 3, 4, 5}) : CASE x = 1 -> Stdio [] x = 2 -> Self(RandomElement(1..2)) [] x = 3 -> HostDef [] x = 4 -> Consts [] OTHER -> Cast
Spec == Init /\ [][Next]_vars
EmitLong == Len(hist) = Depth => PrintT(<<"H", ToJson(hist)>>)
\* a read never gives more than was written, an open handle is never beyond its file
Truthful == \A h \in Open : hnd[h].mode = "r" => hnd[h].pos <= Len(files[hnd[h].p].b)
Distinct == \A p \in Paths : Cardinality({h \in Open : hnd[h].p = p}) <= 1
=================================================================================
