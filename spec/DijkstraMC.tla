----------------------------- MODULE DijkstraMC -----------------------------
(* Design of the obstacle heuristic: the wave from the cell of the goal, with a *)
(* frontier in which a cell is kept with the least cost found so far, explored  *)
(* in any order of equal costs, on every pattern of obstacles of a small grid.  *)
EXTENDS GridPlan, TLC
CONSTANTS R, K
VARIABLES goal, cost, frontier, explored
vars == <<gvars, goal, cost, frontier, explored>>
Init == /\ rows = R /\ cols = K /\ straight = 10 /\ diag = 14 /\ price = [i \in 1..(R * K) |-> 0]
        /\ occ \in SUBSET Cells /\ goal \in Cells
        /\ cost = [c \in Cells |-> IF c = goal THEN 0 ELSE GInf] /\ frontier = {goal} /\ explored = {}
Next == \E c \in frontier :
    /\ \A d \in frontier : cost[c] <= cost[d]
    /\ explored' = explored \cup {c}
    /\ LET S == Steps(c) \ explored' IN
       /\ frontier' = (frontier \ {c}) \cup S
       /\ cost' = [d \in Cells |-> IF d \in S /\ cost[c] + StepCost(c, d) < cost[d] THEN cost[c] + StepCost(c, d) ELSE cost[d]]
    /\ UNCHANGED <<gvars, goal>>
Spec == Init /\ [][Next]_vars
\* explored cells have their final cost, in order
Settled == \A c \in explored : \A d \in frontier : cost[c] <= cost[d]
Explored == frontier = {} => (cost = GDist(goal) /\ explored = { c \in Cells : cost[c] # GInf })
\* the heuristic value decreases along a shortest path by at most the cost of each step
Consistent == \A c \in explored : \A d \in explored : d \in Steps(c) => cost[d] <= cost[c] + StepCost(c, d)
\* never below the straight line: for cells a, b apart the grid cost is at least the distance
Sq(x) == x * x
Line == \A c \in explored : Sq(cost[c] + 2) >= 100 * (Sq(c[1] - goal[1]) + Sq(c[2] - goal[2])) - 200
=============================================================================
