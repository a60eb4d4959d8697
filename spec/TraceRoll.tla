------------------------------- MODULE TraceRoll -------------------------------
(* Conformance of the public rolling checksum (RollSumIncr): behaviours in the    *)
(* format of module Trace, over ops                                              *)
(*     <<0, 0, start>>                       a new chunker                          *)
(*     <<2, i, count, n, res>>               push of n bytes, `count` identical calls *)
(*     <<4, i>>                              clone of instance i                    *)
(*     <<20, i, k, hi, lo, split, ...>>      k bytes rolled one by one; after each  *)
(*                                          (k = 0: once, now) the digest as two    *)
(*                                          halves and the split signal              *)
(* The state of an instance is where it stands, where its chunk began, and the      *)
(* checksum there; only an edge found by push begins a chunk.                        *)
EXTENDS Params, Json, IOUtils, TLC

CONSTANT Judged
PANIC == -2
STALL == -3
NONE == -1

Scn == ndJsonDeserialize(IOEnv.TRACE)
P == TLCEval([s \in 1..Len(Scn) |-> TLCEval(Prep(Resolve(Scn[s].cfg)))])
Digest(h) == << h[1] % 65536, h[2] % 65536 >>
Split(p, h) == h[2] % p.full = p.full - 1

VARIABLES sc, l, inst
vars == << sc, l, inst >>
Report(b) == IF b \cap Judged = {} THEN TRUE ELSE PrintT(<< "REJECT", Scn[sc].id, l, b \cap Judged >>)
If(c, name) == IF c THEN {name} ELSE {}

Init == sc \in 1..Len(Scn) /\ l = 1 /\ inst = << >>

Data == Scn[sc].data
Roll1(in) == [in EXCEPT !.pos = in.pos + 1,
                        !.h = StepBup(P[sc], Data, in.pos + 1, in.start, in.h)[1]]
(* push: <<instance, index after the edge or NONE>> *)
Push(in, n) ==
  LET r == FoldLeftDomain(
             LAMBDA acc, i : IF acc[2] # NONE THEN acc
                             ELSE LET x == Roll1(acc[1])
                                  IN  << x, IF Split(P[sc], x.h) THEN i ELSE NONE >>,
             << in, NONE >>, [i \in 1..n |-> i])
  IN  IF r[2] = NONE THEN r
      ELSE << [r[1] EXCEPT !.start = r[1].pos, !.h = Fresh(P[sc])], r[2] >>
(* the same, whatever was returned: follow the implementation *)
Adopt(in, n, res) ==
  IF res = NONE \/ res < 0 \/ res > n THEN [in EXCEPT !.pos = in.pos + n]
  ELSE [in EXCEPT !.pos = in.pos + res, !.start = in.pos + res, !.h = Fresh(P[sc])]

(* what was seen after a byte: digest halves and signal *)
SeenBroken(in, hi, lo, split) ==
  If(<< hi, lo >> # Digest(in.h), "digest") \cup If((split = 1) # Split(P[sc], in.h), "split")

Do(op) ==
  CASE op[1] = 0 -> inst' = Append(inst, [pos |-> op[3], start |-> op[3], h |-> Fresh(P[sc])])
    [] op[1] = 2 ->
         LET in == inst[op[2]]
             n  == op[3] * op[4]
         IN  IF op[5] < NONE
             THEN Report({IF op[5] = PANIC THEN "panic" ELSE "stall"}) /\ UNCHANGED inst
             ELSE LET r == Push(in, n)
                  IN  /\ Report(If(r[2] # op[5], "edge"))
                      /\ inst' = [inst EXCEPT ![op[2]] = IF r[2] = op[5] THEN r[1] ELSE Adopt(in, n, op[5])]
    [] op[1] = 4 -> inst' = Append(inst, inst[op[2]])
    [] op[1] = 20 ->
         LET in == inst[op[2]]
         IN  IF op[3] < NONE THEN Report({"panic"}) /\ UNCHANGED inst
             ELSE IF op[3] = 0
             THEN Report(SeenBroken(in, op[4], op[5], op[6])) /\ UNCHANGED inst
             ELSE LET r == FoldLeftDomain(
                             LAMBDA acc, i :
                               LET x == Roll1(acc[1])
                               IN  << x, acc[2] \cup SeenBroken(x, op[3 * i + 1], op[3 * i + 2], op[3 * i + 3]) >>,
                             << in, {} >>, [i \in 1..op[3] |-> i])
                  IN  Report(r[2]) /\ inst' = [inst EXCEPT ![op[2]] = r[1]]

Next == /\ l <= Len(Scn[sc].ops)
        /\ Do(Scn[sc].ops[l])
        /\ l' = l + 1
        /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
Steps == FoldLeft(LAMBDA acc, x : acc + Len(x.ops) + 1, 0, Scn)
Complete == TLCGet("stats").distinct = Steps
================================================================================
