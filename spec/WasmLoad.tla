--------------------------------- MODULE WasmLoad --------------------------------
(* Which modules the loader accepts.  A module description carries, besides what     *)
(* Wasm.tla reads, the facts about its binary that decide this:                      *)
(*   hdr  the first bytes (up to 8)            imp  imports [k kind, mn minimum, nl name bytes incl. terminators] *)
(*   cus  lengths of custom section names      xl   lengths of export names          *)
(*   df, ef  flags of data / element segments  nf   number of entries of the function section                     *)
(*   nc   number of bodies of the code section                                       *)
(*   badx constant expressions use other instructions than the supported ones        *)
EXTENDS Wasm

Header == <<0, 97, 115, 109, 1, 0, 0, 0>>
\* instructions of the supported feature set (flattened form; prefix 0xfc is 64512 + code)
Supported(op) == \/ op \in {0, 1, 2, 3, 4, 5, 11, 12, 13, 14, 15, 16, 17, 18, 19, 26, 27, 28}
                 \/ op \in 32..38 \/ op \in 40..64 \/ op \in 65..196 \/ op \in {208, 209, 210}
                 \/ op \in 64512..64519 \/ op \in {64522, 64523, 64526, 64527, 64528, 64529}
\* a block whose type is an index into the type section is written with arity 9
TypeIndexBlock(i) == i[1] \in 2..4 /\ i[2] = 9
\* so many constants in a row that they cannot all be pending
LongRun(c) == \E k \in 1..Len(c) : k + 63 <= Len(c) /\ \A j \in k..k + 63 : c[j][1] \in 65..68
CodeOk(c) == (\A k \in 1..Len(c) : Supported(c[k][1]) /\ ~TypeIndexBlock(c[k])) /\ ~LongRun(c)

TypesOk(md) == \A k \in 1..Len(md.types) : Len(md.types[k].p) <= 255 /\ Len(md.types[k].r) <= 255
FnsOk(md) == \A k \in 1..Len(md.fns) : Len(md.fns[k].l) <= 255 /\ CodeOk(md.fns[k].c)
NamesOk(md) == /\ \A k \in 1..Len(md.xl) : md.xl[k] + 1 <= 256
               /\ \A k \in 1..Len(md.cus) : md.cus[k] + 1 <= 500
               /\ \A k \in 1..Len(md.imp) : md.imp[k].nl <= 500
SegsOk(md) == /\ \A k \in 1..Len(md.df) : md.df[k] \in {0, 2}
              /\ \A k \in 1..Len(md.ef) : md.ef[k] \in 0..7
ConstsOk(md) == /\ \A k \in 1..Len(md.globs) : ~LongRun(md.globs[k].x)
                /\ \A k \in 1..Len(md.elem) : ~LongRun(md.elem[k].x)
                /\ \A k \in 1..Len(md.data) : ~LongRun(md.data[k].x)
\* 12 GiB, which the process does not have
TabsOk(md) == \A k \in 1..Len(md.tabs) : md.tabs[k][1] < 1610612736
WellFormed(md) == /\ md.hdr = Header /\ TypesOk(md) /\ FnsOk(md) /\ NamesOk(md) /\ SegsOk(md)
                  /\ md.nf = md.nc /\ ~md.badx /\ ConstsOk(md) /\ TabsOk(md)
\* bound[k] is what the k-th import is bound to: <<>> nothing, else [pg, mx] of a memory, [n] entries of a table, ...
Resolved(md, bound) == \A k \in 1..Len(md.imp) : bound[k].ok
LargeEnough(md, bound) == \A k \in 1..Len(md.imp) : md.imp[k].k \in {1, 2} => md.imp[k].mn <= bound[k].sz
TooSmall(md, bound) == \E k \in 1..Len(md.imp) : md.imp[k].k \in {1, 2} /\ md.imp[k].mn > bound[k].sz

\* for what may be refused besides: when there is no memory for the code, the module is refused whatever it is
MustLoad(md, bound) == WellFormed(md) /\ Resolved(md, bound) /\ LargeEnough(md, bound)
MustRefuse(md, bound) == ~WellFormed(md) \/ ~Resolved(md, bound) \/ TooSmall(md, bound)
=================================================================================
