------------------------------- MODULE HashRoll -------------------------------
(* The library as a transition system: a stream, and any number of chunkers and *)
(* searches over it, created, cloned, restarted, iterated and fed in any         *)
(* interleaving and with any slicing.  Results come from the machines; `bad`     *)
(* collects every clause of the contract a result breaks, the stream's edges     *)
(* being those of the declarative rules.  `bad = {}` says that the machines       *)
(* refine the abstract protocol with the rules' edges.                           *)
EXTENDS Machines

CONSTANTS Cfgs,      \* set of configurations to explore
          Alphabet,  \* bytes streams are made of
          MaxLen,    \* longest stream
          Kinds,     \* sequence of "p"/"f": the instances
          Acts       \* which kinds of step to explore

VARIABLES cfg,       \* configuration (never changes)
          data,      \* the stream (never changes)
          E,         \* its edges, per interface (never changes)
          inst,      \* protocol view of each instance
          st,        \* machine state of each instance
          bad        \* clauses broken so far
vars == << cfg, data, E, inst, st, bad >>

Ids == 1..Len(Kinds)
Contract(c, kind) ==
  [keep |-> Keep(c), carry |-> Carry(c),
   lag |-> IF c.alg = "fcdc" /\ kind = "p" THEN c.max ELSE 0]
Ct(i) == Contract(cfg, inst[i].kind)
EE(i) == E[inst[i].kind]
Machine(c, kind) == IF kind = "p" THEN IncInit(c) ELSE FceInit(c)

Preps == TLCEval([c \in Cfgs |-> Prep(c)])
Init ==
  /\ cfg \in Cfgs
  /\ data \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
  /\ E = [p |-> EdgesP(Preps[cfg], data, "push"), f |-> EdgesP(Preps[cfg], data, "fce")]
  /\ inst = [i \in Ids |-> NewInst(E[Kinds[i]], Contract(cfg, Kinds[i]), Kinds[i], 0)]
  /\ st = [i \in Ids |-> Machine(cfg, Kinds[i])]
  /\ bad = {}

Static == UNCHANGED << cfg, data, E >>

Push(i, n) ==
  /\ inst[i].kind = "p"
  /\ inst[i].pos + n <= Len(data)
  /\ LET in == inst[i]
         r  == IncPush(cfg, st[i], SubSeq(data, in.pos + 1, in.pos + n))
     IN  /\ bad' = bad \cup PushBroken(EE(i), Ct(i), in, n, r[2])
         /\ inst' = [inst EXCEPT ![i] = PushNext(EE(i), Ct(i), in, n, r[2])]
         /\ st' = [st EXCEPT ![i] = r[1]]
  /\ Static

Find(i, n) ==
  /\ inst[i].kind = "f"
  /\ inst[i].pos + n <= Len(data)
  /\ inst[i].pos + n >= inst[i].hi           \* everything not dropped is still there
  /\ LET in == inst[i]
         r  == FceFind(cfg, st[i], SubSeq(data, in.pos + 1, in.pos + n))
     IN  /\ bad' = bad \cup FindBroken(EE(i), Ct(i), in, n, r[2], r[3])
         /\ inst' = [inst EXCEPT ![i] = FindNext(EE(i), Ct(i), in, n, r[2], r[3])]
         /\ st' = [st EXCEPT ![i] = r[1]]
  /\ Static

(* j becomes a clone of i *)
Clone(i, j) ==
  /\ i # j /\ inst[i].kind = inst[j].kind /\ inst[i] # inst[j]
  /\ inst' = [inst EXCEPT ![j] = inst[i]]
  /\ st' = [st EXCEPT ![j] = st[i]]
  /\ UNCHANGED << cfg, data, E, bad >>

(* j becomes a new instance on the rest of the stream after i's last edge *)
Restart(i, j) ==
  /\ inst[i].kind = inst[j].kind /\ inst[i].prev > 0
  /\ inst' = [inst EXCEPT ![j] = NewInst(EE(j), Ct(j), inst[j].kind, inst[i].prev)]
  /\ st' = [st EXCEPT ![j] = Machine(cfg, inst[j].kind)]
  /\ UNCHANGED << cfg, data, E, bad >>

(* iterate over the next n bytes, take `stop` items at most, take it apart *)
Iterate(i, n, strict, stop) ==
  /\ inst[i].kind = "p"
  /\ inst[i].pos + n <= Len(data)
  /\ LET in == inst[i]
         d  == SubSeq(data, in.pos + 1, in.pos + n)
         r  == RunIter(cfg, st[i], d, 0, strict, stop, << >>)
     IN  /\ bad' = bad \cup IterBroken(EE(i), Ct(i), in, n, strict, r[4], r[2], n - r[2], r[3])
         /\ inst' = [inst EXCEPT ![i] = IterNext(EE(i), Ct(i), in, n, strict, r[4], r[3])]
         /\ st' = [st EXCEPT ![i] = r[1]]
  /\ Static

Next ==
  \/ "push" \in Acts /\ \E i \in Ids, n \in 0..MaxLen : Push(i, n)
  \/ "find" \in Acts /\ \E i \in Ids, n \in 0..MaxLen : Find(i, n)
  \/ "clone" \in Acts /\ \E i, j \in Ids : Clone(i, j)
  \/ "restart" \in Acts /\ \E i, j \in Ids : Restart(i, j)
  \/ "iter" \in Acts /\ \E i \in Ids, n \in 0..MaxLen, s \in BOOLEAN : \E k \in 0..(n + 2) :
        Iterate(i, n, s, k)

Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties --- *)
Refines == bad = {}                                   \* C01..C07, C09, C13..C23
TypeOK == \A i \in Ids : /\ 0 <= inst[i].prev /\ inst[i].prev <= inst[i].hi
                         /\ inst[i].hi <= Len(data) /\ inst[i].pos <= inst[i].hi
(* only bounded memory: what a search may still ask for *)
Bounded == \A i \in Ids : inst[i].kind = "f" =>
              inst[i].pos >= inst[i].prev - Carry(cfg)
(* the two interfaces have the same edges (FastCDC: first edge, off by at most one) *)
SameEdges == IF cfg.alg # "fcdc" THEN E.p = E.f
             ELSE \/ E.p = << >> /\ E.f = << >>
                  \/ E.p # << >> /\ E.f # << >> /\
                     IF E.p[1] = cfg.max THEN E.f[1] = cfg.max ELSE E.f[1] = E.p[1] + 1
                  \/ E.p # << >> /\ E.f = << >> /\ FALSE
Increasing == \A k \in {"p", "f"} : \A i \in 1..Len(E[k]) :
                 E[k][i] > (IF i = 1 THEN 0 ELSE E[k][i - 1]) /\ E[k][i] <= Len(data)
(* running and closed formulations of the rules agree at every byte *)
ClosedForm ==
  cfg.alg \in {"fcdc", "zpaq"} \/
  LET starts == [i \in 1..Len(data) |->
                   IF cfg.alg = "zstd" THEN 0
                   ELSE LET k == NextIdx(E.p, i - 1) IN IF k = 1 THEN 0 ELSE E.p[k - 1]]
  IN  \A i \in 1..Len(data) :
        ClosedSplit(cfg, SubSeq(data, starts[i] + 1, i))
          <=> \E k \in 1..Len(E.p) : E.p[k] = i
(* decisions look back no further than LookBack: shared tails resynchronise *)
Resync ==
  LookBack(cfg) < 0 \/
  \A t \in 0..Len(data) :
    LET e2 == EdgesP(Preps[cfg], SubSeq(data, Len(data) - t + 1, Len(data)), "push")
    IN  \/ cfg.alg = "buz" /\ (\E i \in 1..Len(E.p) : TRUE) /\ cfg.max <= Len(data)
        \/ TailBroken(E.p, Len(data), e2, t, t, LookBack(cfg)) = {}
(* chunk sizes *)
Sizes ==
  CASE cfg.alg = "fcdc" -> /\ SizeBroken(E.p, Len(data), MaxOf(cfg.min, 1), cfg.max) = {}
                           /\ SizeBroken(E.f, Len(data), MaxOf(cfg.min, 1), cfg.max) = {}
                           /\ (Len(data) <= cfg.min => E.p = << >> /\ E.f = << >>)
    [] cfg.alg = "buz" -> SizeBroken(E.p, Len(data), 1, cfg.max + 1) = {}
    [] cfg.alg = "zpaq" -> \A i \in 1..Len(E.p) :
                             LET n == E.p[i] - (IF i = 1 THEN 0 ELSE E.p[i - 1])
                             IN  ~UnderMin(cfg, n) /\ ~ExceedsMax(cfg, n)
    [] cfg.alg = "ram" -> SizeBroken(E.p, 0, cfg.w + 2, 1000000) \ {"tail"} = {}
    [] OTHER -> TRUE
StreamProps == SameEdges /\ Increasing /\ ClosedForm /\ Resync /\ Sizes
==============================================================================
