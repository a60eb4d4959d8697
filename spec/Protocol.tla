------------------------------- MODULE Protocol -------------------------------
(* The contract of the two chunking interfaces and of the slice iterators,     *)
(* independent of any edge rule: given the edges of a stream, which results may *)
(* a call return, and what does the caller know afterwards.                     *)
(*                                                                              *)
(* The edges E of a stream are a sequence of increasing positions.  They act as *)
(* a prophecy: the stream's edges exist before anybody looks for them, and a    *)
(* call may only reveal them.  For every kind of call there is                   *)
(*    XBroken(...)  the set of clauses of the contract the result breaks,        *)
(*    XNext(...)    the instance afterwards, from the result alone,              *)
(* so the same text serves as next-state relation (results with no broken        *)
(* clause), as invariant of the algorithm machines, and as judge of recorded     *)
(* traces.                                                                       *)
(*                                                                              *)
(* An instance is a record                                                       *)
(*   kind  "p" incremental chunker, "f" buffered search                          *)
(*   pos   stream position of the next byte to feed ("p") / buffer start ("f")   *)
(*   hi    highest stream position shown to it                                   *)
(*   prev  last edge it reported (or where it started)                           *)
(*   k     index in E of the edge it must report next                            *)
(* A contract ct is a record                                                     *)
(*   keep  bytes the buffered search may retain when it found nothing            *)
(*   carry bytes before an edge it may retain with an edge                       *)
(*   lag   0, or the forced chunk size of an algorithm whose other edges are      *)
(*         decided by the byte after the edge (FastCDC, incremental interface)   *)
EXTENDS Integers, Sequences, SequencesExt

NONE  == -1
PANIC == -2
STALL == -3

(* first index of a value > x in the increasing sequence E (Len(E)+1 if none) *)
RECURSIVE NextIdxIn(_, _, _, _)
NextIdxIn(E, x, lo, hi) ==
  IF lo > hi THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN  IF E[m] > x THEN NextIdxIn(E, x, lo, m - 1) ELSE NextIdxIn(E, x, m + 1, hi)
NextIdx(E, x) == NextIdxIn(E, x, 1, Len(E))

(* A new instance that is shown the stream from position s on. With a carry,   *)
(* it cannot see the bytes before s and finds only edges beyond s + carry.      *)
NewInst(E, ct, kind, s) ==
  [kind |-> kind, pos |-> s, hi |-> s, prev |-> s,
   k |-> NextIdx(E, IF ct.carry > 0 /\ s > 0 THEN s + ct.carry ELSE s)]

(* the stream position that decides edge number k, the previous edge being prev *)
Decides(E, ct, kind, k, prev) ==
  IF kind = "f" \/ ct.lag = 0 \/ E[k] - prev >= ct.lag THEN E[k] ELSE E[k] + 1

Sync(E, in, prev, pos, hi) ==
  [in EXCEPT !.pos = pos, !.hi = hi, !.prev = prev,
             !.k = IF prev = in.prev THEN in.k
                   ELSE IF in.k <= Len(E) /\ E[in.k] = prev THEN in.k + 1
                   ELSE NextIdx(E, prev)]

If(c, name) == IF c THEN {name} ELSE {}

(* ---------------------------------------------------------------- Push --- *)
PushBroken(E, ct, in, n, res) ==
  IF res = PANIC THEN {"panic"} ELSE IF res = STALL THEN {"stall"} ELSE
  LET due == in.k <= Len(E) /\ Decides(E, ct, "p", in.k, in.prev) <= in.pos + n
  IN  IF res = NONE THEN If(due, "edge")
      ELSE If(res < 0 \/ res > n, "range")
           \cup If(in.pos + res <= in.prev, "order")
           \cup If(~due \/ E[in.k] # in.pos + res, "edge")
PushNext(E, ct, in, n, res) ==
  IF res = NONE THEN [in EXCEPT !.pos = in.pos + n, !.hi = in.pos + n]
  ELSE Sync(E, in, in.pos + res, in.pos + res, in.pos + n)

(* ---------------------------------------------------------------- Find --- *)
(* the buffer is the stream from in.pos to in.pos + n *)
FindBroken(E, ct, in, n, res, disc) ==
  IF res = PANIC THEN {"panic"} ELSE IF res = STALL THEN {"stall"} ELSE
  LET due == in.k <= Len(E) /\ E[in.k] <= in.pos + n
  IN  If(disc < 0 \/ disc > n, "range")
      \cup (IF res = NONE
            THEN If(due, "edge") \cup If(n - disc > ct.keep, "keep")
            ELSE If(res > n \/ res < 0, "range")
                 \cup If(in.pos + res <= in.prev, "order")
                 \cup If(~due \/ E[in.k] # in.pos + res, "edge")
                 \cup If(res - disc > ct.carry, "keep")
                 \cup If(disc > res, "lost"))
FindNext(E, ct, in, n, res, disc) ==
  Sync(E, in, IF res = NONE THEN in.prev ELSE in.pos + res, in.pos + disc, in.pos + n)

(* ----------------------------------------------------------- Iterators --- *)
(* ys: <<offset, length>> of each slice yielded from a buffer of n bytes.     *)
(* Walk: <<broken clauses, offset reached, index in E, previous edge>>        *)
IterStep(E, ct, in, n, strict, acc, y) ==
  LET end == in.pos + y[1] + y[2]
      due == acc[3] <= Len(E) /\ Decides(E, ct, "p", acc[3], acc[4]) <= in.pos + n
      rem == ~strict /\ ~due /\ y[2] > 0 /\ y[1] + y[2] = n   \* the trailing partial chunk
  IN  << acc[1]
         \cup If(y[1] # acc[2] \/ y[2] < 0 \/ y[1] + y[2] > n, "concat")
         \cup If(y[2] = 0 /\ end <= acc[4], "empty")   \* it may end a chunk begun before
         \cup If(~rem /\ ~(due /\ E[acc[3]] = end), "edge"),
         y[1] + y[2],
         IF rem THEN acc[3] ELSE NextIdx(E, end),
         IF rem THEN acc[4] ELSE end >>
IterWalk(E, ct, in, n, strict, ys) ==
  FoldLeft(LAMBDA acc, y : IterStep(E, ct, in, n, strict, acc, y),
           << {}, 0, in.k, in.prev >>, ys)
(* ended: the iterator returned None; <<ro, rl>>: remainder left in it *)
IterBroken(E, ct, in, n, strict, ended, ro, rl, ys) ==
  LET w   == IterWalk(E, ct, in, n, strict, ys)
      due == w[3] <= Len(E) /\ Decides(E, ct, "p", w[3], w[4]) <= in.pos + n
  IN  w[1]
      \cup If(ended /\ strict /\ due, "edge")             \* stopped too early
      \cup If(ended /\ ~strict /\ w[2] # n, "end")        \* lost the tail
      \cup If(ro # w[2] \/ rl # n - w[2], "rem")
(* a chunker taken out of an iterator has seen the bytes yielded, and, when it *)
(* ran to its end, the remainder too                                            *)
IterNext(E, ct, in, n, strict, ended, ys) ==
  LET w == IterWalk(E, ct, in, n, strict, ys)
  IN  [in EXCEPT !.pos = in.pos + (IF ended THEN n ELSE w[2]),
                 !.hi = in.pos + n, !.k = w[3], !.prev = w[4]]

(* -------------------------------------------------- two related streams --- *)
(* Positions of two streams that share their last t bytes: edges further than  *)
(* w bytes into the tail agree if neither has an edge in the first w bytes.     *)
InTail(EE, len, t) ==
  LET s == SelectSeq(EE, LAMBDA e : e > len - t)
  IN  [i \in 1..Len(s) |-> s[i] - (len - t)]
TailBroken(EA, la, EB, lb, t, w) ==
  LET a == InTail(EA, la, t)
      b == InTail(EB, lb, t)
  IN  IF (a # << >> /\ a[1] <= w) \/ (b # << >> /\ b[1] <= w) THEN {}
      ELSE If(a # b, "tail")
TailVacuous(EA, la, EB, lb, t, w) ==
  LET a == InTail(EA, la, t)
      b == InTail(EB, lb, t)
  IN  \/ (a # << >> /\ a[1] <= w) \/ (b # << >> /\ b[1] <= w) \/ (a = << >> /\ b = << >>)

(* ------------------------------------------------------------ size rules --- *)
(* every chunk between edges within lo..hi; no edge means no more than hi      *)
SizeBroken(E, n, lo, hi) ==
  LET sz(i) == E[i] - (IF i = 1 THEN 0 ELSE E[i - 1])
      tail  == n - (IF E = << >> THEN 0 ELSE E[Len(E)])
  IN  If(\E i \in 1..Len(E) : sz(i) < lo, "small")
      \cup If(\E i \in 1..Len(E) : sz(i) > hi, "large")
      \cup If(tail >= hi, "tail")
==============================================================================
