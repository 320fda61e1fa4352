-------------------------------- MODULE HostApi ---------------------------------
(* Objects the host creates through the public interface: stacks, wrapped functions,  *)
(* module states with user data and resolver, and the global configuration.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NSlots
VARIABLES stacks,   \* slot -> 0 or [sz, tag]
          wraps,    \* slot -> 0 or host function number
          mods,     \* slot -> 0 or [ud, res]
          cfg, hist
vars == <<stacks, wraps, mods, cfg, hist>>
S == 1..NSlots
R(X) == {RandomElement(X)}
Rec(o, a, obs) == hist' = Append(hist, [o |-> o, a |-> a, r |-> obs])
n == Len(hist) + 1
Sizes == {1, 7, 15, 16, 17, 64, 100, 1000, 4096, 65536, 1048576}
None == [z |-> 0]
Is(x) == x.z # 0

Alloc(k, sz) == ~Is(stacks[k]) /\ stacks' = [stacks EXCEPT ![k] = [z |-> sz, tag |-> n]] /\ UNCHANGED <<wraps, mods, cfg>> /\ Rec("alloc", <<k, sz, n>>, <<1>>)
\* the bytes written to a stack are still there
Check(k) == Is(stacks[k]) /\ UNCHANGED <<stacks, wraps, mods, cfg>> /\ Rec("check", <<k, stacks[k].z, stacks[k].tag>>, <<1>>)
Fill(k) == Is(stacks[k]) /\ stacks' = [stacks EXCEPT ![k].tag = n] /\ UNCHANGED <<wraps, mods, cfg>> /\ Rec("fill", <<k, stacks[k].z, n>>, <<1>>)
FreeS(k) == Is(stacks[k]) /\ stacks' = [stacks EXCEPT ![k] = None] /\ UNCHANGED <<wraps, mods, cfg>> /\ Rec("frees", <<k>>, <<>>)
Wrap(k, h) == ~Is(wraps[k]) /\ wraps' = [wraps EXCEPT ![k] = [z |-> h]] /\ UNCHANGED <<stacks, mods, cfg>> /\ Rec("wrap", <<k, h>>, <<>>)
\* the host function sees exactly the frame address that was passed
CallW(k, o) == Is(wraps[k]) /\ UNCHANGED <<stacks, wraps, mods, cfg>> /\ Rec("callw", <<k, o>>, <<wraps[k].z, o>>)
\* a module instance calls the wrapped function it imported at load
FreeW(k) == Is(wraps[k]) /\ (\A m \in S : Is(mods[m]) => mods[m].w # k) /\ wraps' = [wraps EXCEPT ![k] = None] /\ UNCHANGED <<stacks, mods, cfg>> /\ Rec("freew", <<k>>, <<>>)
\* load a module importing wrapped function w, its compiler using resolver r (0: the interface without resolver, no import)
Load(k, r, w) == ~Is(mods[k]) /\ (r = 0 \/ Is(wraps[w])) /\
  mods' = [mods EXCEPT ![k] = [z |-> 1, ud |-> 0, res |-> r, w |-> IF r = 0 THEN 0 ELSE w]] /\ UNCHANGED <<stacks, wraps, cfg>> /\ Rec("load", <<k, r, w>>, <<1>>)
CallM(k, o) == Is(mods[k]) /\ mods[k].w # 0 /\ UNCHANGED <<stacks, wraps, mods, cfg>> /\ Rec("callm", <<k, o>>, <<wraps[mods[k].w].z, 5000 + o>>)
SetUd(k) == Is(mods[k]) /\ mods' = [mods EXCEPT ![k].ud = n] /\ UNCHANGED <<stacks, wraps, cfg>> /\ Rec("setud", <<k, n>>, <<>>)
SetRes(k, r) == Is(mods[k]) /\ mods' = [mods EXCEPT ![k].res = r] /\ UNCHANGED <<stacks, wraps, cfg>> /\ Rec("setres", <<k, r>>, <<>>)
Look(k) == Is(mods[k]) /\ UNCHANGED <<stacks, wraps, mods, cfg>> /\ Rec("look", <<k>>, <<mods[k].ud, mods[k].res>>)
FreeM(k) == Is(mods[k]) /\ mods' = [mods EXCEPT ![k] = None] /\ UNCHANGED <<stacks, wraps, cfg>> /\ Rec("freem", <<k>>, <<>>)
SetCfg(a, b) == cfg' = <<a, b>> /\ UNCHANGED <<stacks, wraps, mods>> /\ Rec("setcfg", <<a, b>>, <<>>)
GetCfg == UNCHANGED <<stacks, wraps, mods, cfg>> /\ Rec("getcfg", <<>>, cfg)

Init == stacks = [k \in S |-> None] /\ wraps = [k \in S |-> None] /\ mods = [k \in S |-> None] /\ cfg = <<1, 3>>
        /\ hist = <<[o |-> "setcfg", a |-> <<1, 3>>, r |-> <<>>]>>   \* the initial value is left open
Next == Len(hist) < Depth /\ \E k \in R(S) :
  \/ \E z \in R(Sizes) : Alloc(k, z)
  \/ Check(k) \/ Fill(k) \/ (RandomElement(1..3) = 1 /\ FreeS(k))
  \/ \E h \in R(1..4) : Wrap(k, h)
  \/ \E o \in R({0, 8, 16, 24, 40, 1000}) : CallW(k, o)
  \/ (RandomElement(1..3) = 1 /\ FreeW(k))
  \/ \E r \in R(0..3), w \in R(S) : Load(k, r, w)
  \/ \E o \in R({0, 8, 16, 64}) : CallM(k, o)
  \/ SetUd(k) \/ Look(k) \/ (RandomElement(1..3) = 1 /\ FreeM(k))
  \/ \E r \in R(0..3) : SetRes(k, r)
  \/ \E a \in R({0, 1}), b \in R(0..3) : SetCfg(a, b)
  \/ GetCfg
Spec == Init /\ [][Next]_vars
EmitLong == Len(hist) = Depth => PrintT(<<"H", ToJson(hist)>>)
NoDangling == \A m \in S : Is(mods[m]) /\ mods[m].w # 0 => Is(wraps[mods[m].w])
=================================================================================
