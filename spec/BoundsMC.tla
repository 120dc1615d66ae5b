------------------------------- MODULE BoundsMC -------------------------------
(* Design model: a state wandering through and around a box.                    *)
EXTENDS Bounds, TLC
CONSTANT W
VARIABLES lb, ub, s
vars == <<lb, ub, s>>
Box == [1..2 -> (-W)..W]
Init == lb \in Box /\ ub \in { b \in Box : \A i \in 1..2 : lb[i] <= b[i] } /\ s = lb
Move == \E t \in [1..2 -> (-W - 1)..(W + 1)] : s' = t /\ UNCHANGED <<lb, ub>>
Enforce == s' = Clamp(s, lb, ub) /\ UNCHANGED <<lb, ub>>
Next == Move \/ Enforce
Spec == Init /\ [][Next]_vars
Inside == In(Clamp(s, lb, ub), lb, ub)
Once == Clamp(Clamp(s, lb, ub), lb, ub) = Clamp(s, lb, ub)
Kept == In(s, lb, ub) <=> Clamp(s, lb, ub) = s
Dist(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
\* the closest state of the box
Closest == \A t \in Box : In(t, lb, ub) => Dist(s, Clamp(s, lb, ub)) <= Dist(s, t)
=============================================================================
