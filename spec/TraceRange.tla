------------------------------- MODULE TraceRange ------------------------------
(* Conformance of module range: recorded answers about ranges, one JSON object per *)
(* line:  id;  r = <<lower kind, lower, upper kind, upper>>, kinds as in module      *)
(* Rules (0 unbounded, 1 included, 2 excluded);  q = the questions, <<value,          *)
(* under_min, exceeds_max, contains>>;  tups = the bounds the conversions gave.       *)
(* Values are ranks in an ordered list.                                              *)
EXTENDS Rules, Json, IOUtils, TLC
CONSTANT Judged
Scn == ndJsonDeserialize(IOEnv.TRACE)
RangeOf(r) == [lk |-> r[1], lo |-> r[2], hk |-> r[3], hi |-> r[4]]
AboveMax(c, n) == \/ c.hk = 1 /\ n > c.hi
                  \/ c.hk = 2 /\ n >= c.hi
Bit(b) == IF b THEN 1 ELSE 0
Answer(c, x) == << x, Bit(UnderMin(c, x)), Bit(AboveMax(c, x)),
                   Bit(~UnderMin(c, x) /\ ~AboveMax(c, x)) >>
If(c, name) == IF c THEN {name} ELSE {}
(* clauses broken by the k-th question *)
AskBroken(c, a) ==
  LET w == Answer(c, a[1])
  IN  If(\E i \in 2..4 : a[i] < 0, "panic") \cup If(a[2] # w[2], "under")
      \cup If(a[3] # w[3], "exceeds") \cup If(a[4] # w[4], "contains")

VARIABLES sc, l
vars == << sc, l >>
Report(b) == IF b \cap Judged = {} THEN TRUE ELSE PrintT(<< "REJECT", Scn[sc].id, l, b \cap Judged >>)
Init == sc \in 1..Len(Scn) /\ l = 1
Steps(x) == Len(x.q) + Len(x.tups)
Next ==
  LET x == Scn[sc]
      c == RangeOf(x.r)
  IN  /\ l <= Steps(x)
      /\ Report(IF l <= Len(x.q) THEN AskBroken(c, x.q[l])
                ELSE If(x.tups[l - Len(x.q)] # x.r, "bounds")
                     \cup If(l = Len(x.q) + 1 /\ x.tups = << >>, "panic"))
      /\ l' = l + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
Complete == TLCGet("stats").distinct = FoldLeft(LAMBDA acc, x : acc + Steps(x) + 1, 0, Scn)
================================================================================
