--------------------------------- MODULE Trace ---------------------------------
(* Conformance: behaviours recorded from the implementation, judged by module     *)
(* Protocol.  A trace file holds scenarios, one JSON object per line:             *)
(*   id    number of the scenario                                                 *)
(*   cfg   constructor call (module Params)                                       *)
(*   n     length of the stream                                                   *)
(*   mode  where the stream's edges E come from                                   *)
(*         "rule"   the edge rules applied to `data` (or to n bytes `rep`)         *)
(*         "wit"    an observed run, `wp` incremental / `wf` buffered: they are    *)
(*                  unknown to the specification, but every run must agree         *)
(*         "forced" no hash match in the stream: every chunk is the largest        *)
(*         "free"   unconstrained: only the contract of each call is judged        *)
(*   lists observed edge lists, each <<length of stream, edges...>>                 *)
(*   ops   the calls and what they returned, in order:                             *)
(*     <<0, kind, start>>            new instance (kind 0 chunker, 1 search)        *)
(*     <<2, i, count, n, res>>       push of n bytes, `count` identical calls       *)
(*     <<3, i, count, n, res, disc>> find_chunk_edge on a buffer of n bytes         *)
(*     <<4, i>>                      clone of instance i                            *)
(*     <<5, i>>                      chunker i becomes a search where it stopped    *)
(*     <<6, i, n, strict, ended, remOff, remLen, off1, len1, ...>>  slice iterator   *)
(*     <<7, a, b, c>>                lists a and b agree if c (equal values)         *)
(*     <<8, a, b, t, w>>             lists a and b: streams with the last t bytes    *)
(*                                   in common (w < 0: the rule's look-back)         *)
(*     <<9, a>>                      chunk sizes of list a                           *)
(*     <<10, s, n, p, f>>            first edge of fresh chunker / search started at *)
(*                                   s with n bytes to go (0: none)                  *)
(*     <<11, api, b, q, r, res>>     the first edge of an endless stream of b's lies     *)
(*                                   q * 2^20 + r bytes into it                       *)
(*     <<14, api, len, q, r, res>>   the first edge of the stream that goes on repeating   *)
(*                                   the last len bytes of `data`, as in 11              *)
(*     <<13, api, p, e1, ...>>       the rule's stream with the constant part that ends  *)
(*                                   at p made 2^32 bytes longer: the edges, as far      *)
(*                                   past the end of that part (-1: an edge in it)       *)
(*     <<12, m, ended, lo1, hi1, ..> size_hint before each call of an iterator that    *)
(*                                   yielded m slices (and ended); hi -1: none        *)
(* Every scenario is one behaviour of this specification, one step per op.  A       *)
(* result that breaks a clause under judgement is reported and the behaviour goes    *)
(* on from what was returned, so one defect does not hide the next.                  *)
EXTENDS Protocol, Params, Json, IOUtils, TLC

CONSTANT Judged                       \* clauses under judgement

Scn == ndJsonDeserialize(IOEnv.TRACE)
Cfg == TLCEval([s \in 1..Len(Scn) |-> Resolve(Scn[s].cfg)])

Forced(c, n) == LET f == Largest(c) IN [k \in 1..(n \div f) |-> k * f]
EdgesOf(s, api) ==
  LET x == Scn[s] IN
  CASE x.mode = "free" -> << >>
    [] x.mode = "wit" -> IF api = "push" THEN x.wp ELSE x.wf
    [] x.mode = "forced" -> Forced(Cfg[s], x.n)
    [] x.mode = "rule" ->
         IF "rep" \in DOMAIN x THEN ConstEdges(Cfg[s], x.rep, x.n, x.probe)
         ELSE Edges(Cfg[s], x.data, api)
EP == TLCEval([s \in 1..Len(Scn) |-> TLCEval(EdgesOf(s, "push"))])
EF == TLCEval([s \in 1..Len(Scn) |->
        IF Cfg[s].alg # "fcdc" /\ Scn[s].mode # "wit" THEN EP[s] ELSE TLCEval(EdgesOf(s, "fce"))])

Contract(c, kind) ==
  [keep |-> Keep(c), carry |-> Carry(c),
   lag |-> IF c.alg = "fcdc" /\ kind = "p" THEN c.max ELSE 0]

VARIABLES sc, l, inst
vars == << sc, l, inst >>

EOf(kind) == IF kind = "p" THEN EP[sc] ELSE EF[sc]
Ct(kind) == Contract(Cfg[sc], kind)

Free == Scn[sc].mode = "free"
Report(broken) ==
  LET b == (IF Free THEN broken \ {"edge"} ELSE broken) \cap Judged
  IN  IF b = {} THEN TRUE ELSE PrintT(<< "REJECT", Scn[sc].id, l, b >>)

Init == sc \in 1..Len(Scn) /\ l = 1 /\ inst = << >>

Pairs(q) == [i \in 1..(Len(q) \div 2) |-> << q[2 * i - 1], q[2 * i] >>]
EdgeList(a) == Tail(Scn[sc].lists[a])
LenOf(a) == Head(Scn[sc].lists[a])

Do(op) ==
  CASE op[1] = 0 ->
         LET kind == IF op[2] = 0 THEN "p" ELSE "f"
         IN  inst' = Append(inst, NewInst(EOf(kind), Ct(kind), kind, op[3]))
    [] op[1] = 2 ->
         LET in == inst[op[2]]
         IN  /\ Report(PushBroken(EOf("p"), Ct("p"), in, op[3] * op[4], op[5]))
             /\ inst' = [inst EXCEPT ![op[2]] =
                           IF op[5] < NONE THEN in ELSE PushNext(EOf("p"), Ct("p"), in, op[3] * op[4], op[5])]
    [] op[1] = 3 ->
         LET in == inst[op[2]]
         IN  \* count > 1: nothing found, the same number of bytes dropped each time
             /\ Report(IF op[3] > 1
                       THEN FindBroken(EOf("f"), Ct("f"),
                              [in EXCEPT !.pos = in.pos + (op[3] - 1) * op[6]], op[4], op[5], op[6])
                       ELSE FindBroken(EOf("f"), Ct("f"), in, op[4], op[5], op[6]))
             /\ inst' = [inst EXCEPT ![op[2]] =
                  IF op[5] < NONE THEN in
                  ELSE IF op[3] > 1
                  THEN FindNext(EOf("f"), Ct("f"),
                         [in EXCEPT !.pos = in.pos + (op[3] - 1) * op[6]], op[4], op[5], op[6])
                  ELSE FindNext(EOf("f"), Ct("f"), in, op[4], op[5], op[6])]
    [] op[1] = 4 -> inst' = Append(inst, inst[op[2]])
    [] op[1] = 5 -> inst' = Append(inst, [inst[op[2]] EXCEPT !.kind = "f"])
    [] op[1] = 6 ->
         LET in == inst[op[2]]
             ys == Pairs(SubSeq(op, 8, Len(op)))
         IN  IF op[5] < NONE
             THEN Report(IF op[5] = PANIC THEN {"panic"} ELSE {"stall"}) /\ UNCHANGED inst
             ELSE /\ Report(IterBroken(EOf("p"), Ct("p"), in, op[3], op[4] = 1, op[5] = 1, op[6], op[7], ys))
                  /\ inst' = [inst EXCEPT ![op[2]] =
                                IterNext(EOf("p"), Ct("p"), in, op[3], op[4] = 1, op[5] = 1, ys)]
    [] op[1] = 7 -> /\ Report(If(op[4] = 1 /\ Scn[sc].lists[op[2]] # Scn[sc].lists[op[3]], "agree"))
                    /\ UNCHANGED inst
    [] op[1] = 8 -> /\ Report(TailBroken(EdgeList(op[2]), LenOf(op[2]), EdgeList(op[3]), LenOf(op[3]), op[4],
                                IF op[5] < 0 THEN LookBack(Cfg[sc]) ELSE op[5]))
                    /\ UNCHANGED inst
    [] op[1] = 9 -> /\ Report(SizeBroken(EdgeList(op[2]), LenOf(op[2]), Smallest(Cfg[sc]), Largest(Cfg[sc])))
                    /\ UNCHANGED inst
    [] op[1] = 10 ->
         LET p == op[4]
             f == op[5]
             lag == Ct("p").lag
         IN  /\ Report(IF p = f THEN (IF lag > 0 /\ p > 0 /\ p - op[2] > lag THEN {"agree"} ELSE {})
                       ELSE IF lag > 0 /\ p > 0 /\ f = p + 1 /\ p - op[2] < lag THEN {"side"}
                       ELSE {"agree"})
             /\ UNCHANGED inst
    [] op[1] = 11 ->
         LET f == FarFirst(Cfg[sc], op[3], IF op[2] = 0 THEN "push" ELSE "fce")
         IN  /\ Report(CASE op[6] = PANIC -> {"panic"}
                          [] op[6] = STALL -> {"stall"}
                          [] op[6] = NONE -> {"large"}
                          [] << op[4], op[5] >> = f -> {}
                          [] op[4] > f[1] \/ (op[4] = f[1] /\ op[5] > f[2]) -> {"large"}
                          [] OTHER -> {"far"})
             /\ UNCHANGED inst
    [] op[1] = 14 ->
         LET f == PeriodFirst(Cfg[sc], Scn[sc].data, op[3])
         IN  /\ Report(CASE op[6] = PANIC -> {"panic"}
                          [] op[6] = STALL -> {"stall"}
                          [] f = << >> -> {}
                          [] op[6] = NONE -> {"large"}
                          [] << op[4], op[5] >> = f -> {}
                          [] After64(<< op[4], op[5] >>, f) -> {"large"}
                          [] OTHER -> {"far"})
             /\ UNCHANGED inst
    [] op[1] = 13 ->
         LET es  == EOf(IF op[2] = 0 THEN "p" ELSE "f")
             got == SubSeq(op, 4, Len(op))
         IN  /\ Report(CASE \E i \in 1..Len(got) : got[i] = PANIC -> {"panic"}
                          [] \E i \in 1..Len(got) : got[i] = STALL -> {"stall"}
                          [] \E i \in 1..Len(es) : es[i] < op[3] -> {}
                          [] OTHER -> If(got # [i \in 1..Len(es) |-> es[i] - op[3]], "far"))
             /\ UNCHANGED inst
    [] op[1] = 12 ->
         LET h    == Pairs(SubSeq(op, 4, Len(op)))
             left(i) == op[2] - i + 1
         IN  /\ Report(If(\E i \in 1..Len(h) : (op[3] = 1 /\ h[i][1] > left(i))
                                           \/ (h[i][2] >= 0 /\ h[i][2] < left(i)), "hint"))
             /\ UNCHANGED inst

Next == /\ l <= Len(Scn[sc].ops)
        /\ Do(Scn[sc].ops[l])
        /\ l' = l + 1
        /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars

(* every behaviour was followed to its end: one state per op and one to start *)
Steps == FoldLeft(LAMBDA acc, x : acc + Len(x.ops) + 1, 0, Scn)
Complete == TLCGet("stats").distinct = Steps
==============================================================================
