--------------------------------- MODULE RStack ---------------------------------
(* The runtime stack helpers: bytes of the stack are symbols <<tag, k>> (byte k of   *)
(* the tag-th value put), 0 is a byte nothing is known about.  Frames are passed to   *)
(* generated functions that return their parameters in the same or reversed order.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Types,    \* subset of {"i", "I", "f", "F", "r"}
          Cfgs,     \* stack flags: 1 = auto align
          Bases,    \* offsets a frame may start at
          Depth, Mode   \* "struct": put all, read all; "rand": any order of operations
VARIABLES cfg, sp, mem, run, rs, ntag, hist
\* run: types put since the frame was started at rs
vars == <<cfg, sp, mem, run, rs, ntag, hist>>
Size == IF Mode = "struct" THEN 128 ELSE 256
W(t) == IF t \in {"i", "f"} THEN 4 ELSE 8
Up(o, c, t) == IF c = 1 /\ W(t) = 8 /\ o % 8 # 0 THEN o + 4 ELSE o
\* positions of the slots of a frame: a function of the types before them only
RECURSIVE Slots(_, _, _)
Slots(o, c, ts) == IF ts = <<>> THEN <<>> ELSE
  LET a == Up(o, c, Head(ts)) IN <<a>> \o Slots(a + W(Head(ts)), c, Tail(ts))
Rec(o, a, obs) == hist' = Append(hist, [o |-> o, a |-> a, sp |-> sp', r |-> obs])

Put(t) == LET a == Up(sp, cfg, t)  n == ntag + 1 IN
  /\ a + 8 <= Size - 64
  /\ sp' = a + W(t) /\ ntag' = n /\ run' = Append(run, <<t, a, n>>)
  /\ mem' = [b \in 0..(Size-1) |-> IF b >= a /\ b < a + W(t) THEN <<n, b - a>> ELSE mem[b]]
  /\ UNCHANGED <<cfg, rs>> /\ Rec("put", <<t, n>>, <<>>)
Get(t) == LET a == Up(sp, cfg, t) IN
  /\ a + W(t) <= Size /\ \A b \in a..(a + W(t) - 1) : mem[b] # <<>>
  /\ sp' = a + W(t) /\ run' = <<>> /\ rs' = -1 /\ UNCHANGED <<cfg, mem, ntag>>
  /\ Rec("get", <<t>>, [k \in 1..W(t) |-> mem[a + k - 1]])
Seek(o) == /\ sp' = o /\ run' = <<>> /\ rs' = o /\ UNCHANGED <<cfg, mem, ntag>> /\ Rec("seek", <<o>>, <<>>)
SetCfg(c) == /\ c # cfg /\ cfg' = c /\ run' = <<>> /\ rs' = -1 /\ UNCHANGED <<sp, mem, ntag>> /\ Rec("cfg", <<c>>, <<>>)
Types1(s) == [k \in 1..Len(s) |-> s[k][1]]
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
\* the frame since rs is passed to a function of these parameters returning them (rev: in reversed order)
Call(rev) == LET q == IF rev THEN Rev(run) ELSE run  s == Slots(rs, cfg, Types1(q)) IN
  /\ rs >= 0 /\ run # <<>> /\ (cfg = 1 => rs % 8 = 0)
  /\ sp' = rs /\ run' = <<>> /\ rs' = -1
  /\ mem' = [b \in 0..(Size-1) |-> IF b < rs THEN mem[b] ELSE
               LET h == {k \in 1..Len(q) : b >= s[k] /\ b < s[k] + W(q[k][1])} IN
               IF h = {} THEN <<>> ELSE LET k == CHOOSE k \in h : TRUE IN <<q[k][3], b - s[k]>>]
  /\ UNCHANGED <<cfg, ntag>>
  /\ Rec("call", <<IF rev THEN 1 ELSE 0, Types1(run)>>, Slots(rs, cfg, Types1(run)))

Init == /\ cfg \in Cfgs /\ sp \in Bases /\ mem = [b \in 0..(Size-1) |-> <<>>] /\ run = <<>> /\ rs = sp /\ ntag = 0
        /\ hist = <<[o |-> "start", a |-> <<cfg>>, sp |-> sp, r |-> <<>>]>>
R(S) == {RandomElement(S)}
NextRand == Len(hist) < Depth /\
  \/ \E t \in R(Types) : Put(t)
  \/ \E t \in R(Types) : Put(t)
  \/ \E t \in R(Types) : Put(t)
  \/ \E t \in R(Types) : Get(t)
  \/ \E t \in R(Types) : Get(t)
  \/ \E o \in R(Bases) : RandomElement(1..4) = 1 /\ Seek(o)
  \/ \E o \in R({run[k][2] : k \in 1..Len(run)} \cup Bases) : RandomElement(1..3) = 1 /\ Seek(o)
  \/ \E c \in R(Cfgs) : RandomElement(1..5) = 1 /\ SetCfg(c)
  \/ \E v \in R({TRUE, FALSE}) : Call(v)
\* all type sequences: put them, pass them to a function or rewind, read them back
Phase == LET s == {k \in 1..Len(hist) : hist[k].o \in {"seek", "call"}} IN s # {}
Want == LET k == CHOOSE k \in 1..Len(hist) : hist[k].o \in {"seek", "call"}
            ts == [j \in 1..(k-2) |-> hist[j+1].a[1]]
        IN IF hist[k].o = "call" /\ hist[k].a[1] = 1 THEN Rev(ts) ELSE ts
Got == Len(hist) - (CHOOSE k \in 1..Len(hist) : hist[k].o \in {"seek", "call"})
NextStruct ==
  \/ ~Phase /\ Len(hist) <= Depth /\ \E t \in Types : Put(t)
  \/ ~Phase /\ Len(hist) > 1 /\ (Seek(rs) \/ Call(TRUE) \/ Call(FALSE))
  \/ Phase /\ Got < Len(Want) /\ Get(Want[Got + 1])
Next == IF Mode = "struct" THEN NextStruct ELSE NextRand
Spec == Init /\ [][Next]_vars
Emit == PrintT(<<"H", ToJson(hist)>>)
EmitStruct == (Phase /\ Got = Len(Want)) => Emit
EmitRand == Len(hist) = Depth => Emit

---------------------------------------------------------------------------------
\* what is read back in a structured run is what was put
RoundTrip == (Mode = "struct" /\ Phase) =>
  \A j \in 1..Got : LET k == (CHOOSE k \in 1..Len(hist) : hist[k].o \in {"seek", "call"})
                        g == hist[k + j]
                        src == IF hist[k].o = "call" /\ hist[k].a[1] = 1 THEN Len(Want) + 1 - j ELSE j
                    IN g.r = [b \in 1..W(g.a[1]) |-> <<src, b - 1>>]
\* slots do not overlap and are aligned when asked for
SlotsOk == \A i \in 1..Len(run) : /\ cfg = 1 /\ W(run[i][1]) = 8 => run[i][2] % 8 = 0
                                  /\ i < Len(run) => run[i][2] + W(run[i][1]) <= run[i + 1][2]
=================================================================================
