-------------------------------- MODULE Bounds --------------------------------
(* Boxes of states: one interval per coordinate, ends included.                 *)
EXTENDS Integers, Sequences
In(s, lb, ub) == \A i \in DOMAIN s : lb[i] <= s[i] /\ s[i] <= ub[i]
Clamp1(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
Clamp(s, lb, ub) == [i \in DOMAIN s |-> Clamp1(s[i], lb[i], ub[i])]
=============================================================================
