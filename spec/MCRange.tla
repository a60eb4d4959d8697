-------------------------------- MODULE MCRange -------------------------------
(* Ranges with bounds of every kind over a small domain: the two predicates say      *)
(* on which side of the range a value lies, and `contains` is exactly neither.        *)
EXTENDS Rules
CONSTANT Top
VARIABLES r, x
vars == << r, x >>
Init == /\ r \in [lk : 0..2, lo : 0..Top, hk : 0..2, hi : 0..Top]
        /\ x = 0
Next == x < Top /\ x' = x + 1 /\ UNCHANGED r
Spec == Init /\ [][Next]_vars
Members == {n \in 0..Top : /\ r.lk = 1 => n >= r.lo
                           /\ r.lk = 2 => n > r.lo
                           /\ r.hk = 1 => n <= r.hi
                           /\ r.hk = 2 => n < r.hi}
ContainsIff == (x \in Members) <=> (~UnderMin(r, x) /\ ~ExceedsMax(r, x))
Sides == /\ UnderMin(r, x) => \A m \in Members : m > x
         /\ ExceedsMax(r, x) => \A m \in Members : m < x
Monotone == \A y \in 0..Top : /\ y <= x /\ UnderMin(r, x) => UnderMin(r, y)
                              /\ y >= x /\ ExceedsMax(r, x) => ExceedsMax(r, y)
================================================================================
