-------------------------------- MODULE MCRoll --------------------------------
(* The rolling checksum as an object: bytes rolled in one at a time or pushed as    *)
(* slices, in any mix, over every small stream.  The running state always equals    *)
(* the closed-form digest of the last `w` bytes since the last edge push found.      *)
EXTENDS Rules
CONSTANTS MaxLen, Alphabet
VARIABLES cfg, data, pos, start, h, last
vars == << cfg, data, pos, start, h, last >>
RollCfgs == {[alg |-> "bup", w |-> w, bits |-> b, off |-> 31, top |-> 3] : w \in {1, 3, 4, 12}, b \in {1, 2}}
P == Prep(cfg)
Split(x) == x[2] % P.full = P.full - 1
Init == /\ cfg \in RollCfgs
        /\ data \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
        /\ pos = 0 /\ start = 0 /\ last = "new"
        /\ h = Fresh(Prep(cfg))
Roll == /\ pos < Len(data)
        /\ h' = StepBup(P, data, pos + 1, start, h)[1]
        /\ pos' = pos + 1 /\ last' = "roll"
        /\ UNCHANGED << cfg, data, start >>
RECURSIVE Go(_, _, _)
Go(x, p, to) == IF p = to THEN << x, p, FALSE >>
                ELSE LET y == StepBup(P, data, p + 1, start, x)[1]
                     IN  IF Split(y) THEN << y, p + 1, TRUE >> ELSE Go(y, p + 1, to)
Push(n) == LET r == Go(h, pos, pos + n)
           IN  /\ pos + n <= Len(data)
               /\ pos' = r[2]
               /\ start' = IF r[3] THEN r[2] ELSE start
               /\ h' = IF r[3] THEN Fresh(P) ELSE r[1]
               /\ last' = IF r[3] THEN "edge" ELSE "none"
               /\ UNCHANGED << cfg, data >>
Next == Roll \/ \E n \in 0..MaxLen : Push(n)
Spec == Init /\ [][Next]_vars
Digest == << h[1] % 65536, h[2] % 65536 >> = BupDigest(cfg, SubSeq(data, start + 1, pos))
(* without rolls past a split, the signal never stands after a push *)
Signal == last \in {"new", "edge"} => ~Split(h) \/ Split(Fresh(P))
================================================================================
