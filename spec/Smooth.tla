------------------------------- MODULE Smooth -------------------------------
(* Which poses of a path of n poses the smoother may move, given the set of     *)
(* cusps (0-based), and how a run ends.                                         *)
EXTENDS Integers, FiniteSets
\* poses with the full weight of the objective: two neighbours on either side, none of the five a cusp
Free(n, cusps) == { i \in 2..(n - 3) : \A c \in cusps : c < i - 2 \/ c > i + 2 }
\* poses that may move at all: the curvature at a free pose also depends on its neighbours
Movable(n, cusps) == { i \in 0..(n - 1) : \E j \in Free(n, cusps) : i \in (j - 1)..(j + 1) }

MaxIteration == 0
StepTolerance == 1
PathSize == 2
\* A run whose k-th iteration (1-based) would have the steps steps[k]: the number of
\* iterations and the outcome before the final check of the poses.
Ends(steps, max, Small(_)) ==
    LET stop == { k \in 1..max : k \in DOMAIN steps /\ Small(steps[k]) }
        first == IF stop = {} THEN max ELSE CHOOSE k \in stop : \A j \in stop : k <= j IN
    IF first < max THEN <<first, StepTolerance>> ELSE <<max, MaxIteration>>
=============================================================================
