----------------------------- MODULE GridPlanMC -----------------------------
(* A robot walking on every occupancy pattern of a small grid, step by step: *)
(* the cost it has spent is never below the computed distance, every cell it *)
(* reaches is free, steps are reversible, and the set of cells it can reach  *)
(* is what the distance field calls reachable.                              *)
EXTENDS GridPlan, TLC
CONSTANTS R, K, MaxCost
VARIABLES at, from, spent, field
vars == <<gvars, at, from, spent, field>>
Init == /\ rows = R /\ cols = K /\ straight = 2 /\ diag = 3 /\ price = [i \in 1..(R * K) |-> 0]
        /\ occ \in SUBSET Cells
        /\ at \in { c \in Cells : c \notin occ } /\ from = at /\ spent = 0
        /\ field = GDist(at)
Walk == \E d \in Cells : /\ d \in Steps(at) /\ spent + StepCost(at, d) <= MaxCost
                          /\ at' = d /\ spent' = spent + StepCost(at, d)
                          /\ UNCHANGED <<gvars, from, field>>
Spec == Init /\ [][Walk]_vars
Free == at \notin occ
LowerBound == field[at] <= spent
Reversible == \A d \in Steps(at) : at \in Steps(d)
Fixpoint == \A c \in Cells : \A d \in Steps(c) : field[c] # GInf => field[d] <= field[c] + StepCost(c, d)
=============================================================================
