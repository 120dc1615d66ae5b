------------------------------ MODULE SmoothMC ------------------------------
(* Design of a run of the smoother: the scan that lists the poses to move (it    *)
(* jumps over the poses that a cusp ahead rules out), the loop of iterations and  *)
(* its two ways to end.  For every path length up to N, every set of cusps, every *)
(* history of large and small steps: the scan lists exactly the free poses, ends   *)
(* and cusps never move, and the loop stops after the iteration of the first small *)
(* step or at the limit.                                                          *)
EXTENDS Smooth, Sequences
CONSTANTS N, MaxIt
VARIABLES n, cusps, i, list, phase, max, count, small, steps, moved, outcome
vars == <<n, cusps, i, list, phase, max, count, small, steps, moved, outcome>>
Init == /\ n \in 5..N /\ cusps \in SUBSET (0..(n - 1)) /\ max \in 0..MaxIt
        /\ i = 0 /\ list = <<>> /\ phase = "scan" /\ count = 0 /\ small = FALSE /\ steps = <<>> /\ moved = {} /\ outcome = -1
Scan == /\ phase = "scan" /\ i < n - 4
        /\ LET ahead == { d \in 0..4 : (i + d) \in cusps } IN
           IF ahead = {} THEN list' = Append(list, i + 2) /\ i' = i + 1
           ELSE LET d == CHOOSE x \in ahead : \A y \in ahead : x >= y IN
                list' = list /\ i' = i + (IF d >= 1 THEN d ELSE 1)
        /\ UNCHANGED <<n, cusps, phase, max, count, small, steps, moved, outcome>>
Scanned == phase = "scan" /\ i >= n - 4 /\ phase' = "loop" /\ UNCHANGED <<n, cusps, i, list, max, count, small, steps, moved, outcome>>
Touch == { j \in 0..(n - 1) : \E k \in DOMAIN list : j \in (list[k] - 1)..(list[k] + 1) }
Iterate == /\ phase = "loop"
           /\ IF count >= max THEN outcome' = MaxIteration /\ phase' = "done" /\ UNCHANGED <<count, small, steps, moved>>
              ELSE IF small THEN outcome' = StepTolerance /\ phase' = "done" /\ UNCHANGED <<count, small, steps, moved>>
              ELSE /\ small' \in BOOLEAN /\ steps' = Append(steps, small') /\ count' = count + 1 /\ moved' = moved \cup Touch
                   /\ UNCHANGED <<outcome, phase>>
           /\ UNCHANGED <<n, cusps, i, list, max>>
Spec == Init /\ [][Scan \/ Scanned \/ Iterate]_vars /\ WF_vars(Scan \/ Scanned \/ Iterate)
InvScan == phase # "scan" => { list[k] : k \in DOMAIN list } = Free(n, cusps) /\ Len(list) = Cardinality(Free(n, cusps))
InvFixed == moved \subseteq Movable(n, cusps) /\ moved \cap (cusps \cup {0, n - 1}) = {}
IsSmall(s) == s
InvEnd == phase = "done" => <<count, outcome>> = Ends(steps, max, IsSmall)
Stops == <>(phase = "done")
=============================================================================
