---------------------------------- MODULE Gen ----------------------------------
(* From the specification to the code: behaviours of HashRoll over given streams   *)
(* and real configurations, printed as schedules for the implementation to run.     *)
(* What the implementation answers is then judged by module Trace.                  *)
(*   Cover: breadth first over the machines' states; every transition is printed    *)
(*          with a shortest behaviour that leads to it (hist is not part of the     *)
(*          view), so every step from every machine state is run on the code.       *)
(*   Walks: that many random behaviours of Depth steps per stream.                  *)
(* Steps are written with stream positions, not lengths, so that a schedule goes on  *)
(* over the same bytes whatever the implementation returns:                          *)
(*   <<52, i, e>>  push the bytes up to position e     <<53, i, e>>  search up to e    *)
(*   <<54, i, j>>  j becomes a clone of i                                            *)
(*   <<59, i, j>>  j starts afresh at the last edge i reported                        *)
(*   <<56, i, e, strict, stop>>  iterate up to position e, taking at most stop items  *)
(* The machines' results are compared with the rules on the way (Refines).            *)
EXTENDS HashRoll, Params, Json, IOUtils, TLC

CONSTANTS Walks, Depth

In == ndJsonDeserialize(IOEnv.STREAMS)
RCfg == TLCEval([k \in 1..Len(In) |->
          LET c == Resolve(In[k].cfg)
          IN  TLCEval(c @@ [top |-> 255]
                @@ [pw |-> IF c.alg = "zstd" THEN PowN60(c.prime, c.rl - 1) ELSE 0])])
EP == TLCEval([k \in 1..Len(In) |-> TLCEval(Edges(RCfg[k], In[k].data, "push"))])
EF == TLCEval([k \in 1..Len(In) |->
        IF RCfg[k].alg = "fcdc" THEN TLCEval(Edges(RCfg[k], In[k].data, "fce")) ELSE EP[k]])

VARIABLES k, w, hist
gvars == << k, w, hist, cfg, data, E, inst, st, bad >>

Cuts == Head(In[k].lists)
CutSet == {Cuts[i] : i \in 1..Len(Cuts)}

GInit ==
  /\ k \in 1..Len(In) /\ w \in 0..Walks
  /\ (Walks > 0 => w > 0)
  /\ hist = << >>
  /\ cfg = RCfg[k]
  /\ data = In[k].data
  /\ E = [p |-> EP[k], f |-> EF[k]]
  /\ inst = [i \in Ids |-> NewInst(E[Kinds[i]], Contract(cfg, Kinds[i]), Kinds[i], 0)]
  /\ st = [i \in Ids |-> Machine(cfg, Kinds[i])]
  /\ bad = {}

Ends(i) == {e \in CutSet : e >= inst[i].hi /\ e >= inst[i].pos}
(* an empty push, and the end of what it has already been shown, as well *)
EndsP(i) == {e \in CutSet \cup {inst[i].pos, inst[i].hi} : e >= inst[i].pos}
EndsF(i) == Ends(i) \cup {inst[i].hi}
Stops == 0..3 \cup {Len(data) + 2}
(* everything from an edge; within a chunk already begun, the cover has one slice *)
EndsI(i) == IF Walks > 0 \/ inst[i].pos = inst[i].prev THEN EndsP(i) ELSE {Len(data)}
StopsI(i) == IF Walks > 0 \/ inst[i].pos = inst[i].prev THEN (IF Walks > 0 THEN Stops ELSE Stops \ {0, 3}) ELSE {1, Len(data) + 2}

Take(o) ==
  /\ CASE o[1] = 52 -> Push(o[2], o[3] - inst[o[2]].pos)
       [] o[1] = 53 -> Find(o[2], o[3] - inst[o[2]].pos)
       [] o[1] = 54 -> Clone(o[2], o[3])
       [] o[1] = 59 -> Restart(o[2], o[3])
       [] o[1] = 56 -> Iterate(o[2], o[3] - inst[o[2]].pos, o[4] = 1, o[5])
  /\ hist' = Append(hist, o)
  /\ UNCHANGED << k, w >>

Ps == {i \in Ids : inst[i].kind = "p"}
Fs == {i \in Ids : inst[i].kind = "f"}
Twos == {p \in Ids \X Ids : p[1] # p[2] /\ inst[p[1]].kind = inst[p[2]].kind}
Enabled ==
  UNION {
    IF "push" \in Acts THEN UNION {{<<52, i, e>> : e \in EndsP(i)} : i \in Ps} ELSE {},
    IF "find" \in Acts THEN UNION {{<<53, i, e>> : e \in EndsF(i)} : i \in Fs} ELSE {},
    IF "clone" \in Acts THEN {<<54, p[1], p[2]>> : p \in {q \in Twos : inst[q[1]] # inst[q[2]]}} ELSE {},
    IF "restart" \in Acts THEN {<<59, p[1], p[2]>> : p \in {q \in Twos : inst[q[1]].prev > 0}} ELSE {},
    IF "iter" \in Acts THEN UNION {{<<56, i, e, s, t>> : e \in EndsI(i), s \in {0, 1}, t \in StopsI(i)} : i \in Ps} ELSE {} }

GNext == IF Walks = 0 THEN \E o \in Enabled : Take(o)
         ELSE /\ Len(hist) < Depth
              /\ \E a \in {RandomElement({o[1] : o \in Enabled})} :       \* a kind of step, then
                 \E b \in {RandomElement({o[2] : o \in {x \in Enabled : x[1] = a}})} :  \* an instance
                 \E o \in {RandomElement({x \in Enabled : x[1] = a /\ x[2] = b})} : Take(o)
GSpec == GInit /\ [][GNext]_gvars

KindsP == <<"p">>
KindsF == <<"f">>
KindsPF == <<"p", "f">>
KindsPP == <<"p", "p">>
KindsFF == <<"f", "f">>

View == << k, w, inst, st >>
ViewW == << k, w, hist >>
PrintStep == IF Walks = 0 \/ Len(hist') = Depth THEN PrintT(<< "T", In[k].id, hist' >>) ELSE TRUE
==============================================================================
