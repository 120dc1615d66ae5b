----------------------------- MODULE VoronoiMC -----------------------------
(* Edges derived from nearest obstacles, for every labelling of a small grid   *)
(* and every choice among equally near obstacle cells: an edge never falls on  *)
(* an obstacle (the potential field stays defined), edges exist only between   *)
(* different obstacles, and between two neighbours that belong to separate     *)
(* obstacles there is one.                                                     *)
EXTENDS GridMath
CONSTANTS R, C, Labels
VARIABLES val, near, step
vars == <<val, near, step>>
Cells == 0..(R * C - 1)
AbsV(x) == IF x < 0 THEN -x ELSE x
Occ == { c \in Cells : val[c] >= 0 }
Init == val \in [Cells -> {-1} \cup Labels] /\ near = [c \in Cells |-> -1] /\ step = 0
\* resolve one cell after the other, any nearest obstacle cell
Pick == /\ step < R * C
        /\ IF Occ = {} THEN near' = near
           ELSE \E o \in { x \in Occ : D2(step, x, C) = Nearest2(step, Occ, C) } : near' = [near EXCEPT ![step] = o]
        /\ step' = step + 1 /\ UNCHANGED val
Spec == Init /\ [][Pick]_vars
Od(c) == D2(c, near[c], C)
Touching(a, b) == AbsV(Row(a, C) - Row(b, C)) <= 1 /\ AbsV(Col(a, C) - Col(b, C)) <= 1
Sep(s, n) == val[near[s]] # val[near[n]] /\ (Od(s) > 1 \/ Od(n) > 1) /\ ~Touching(near[s], near[n])
Between(s, n) == Sep(s, n) /\ LET ss == D2(s, near[n], C) - Od(s) ns == D2(n, near[s], C) - Od(n) IN ss >= 0 /\ ns >= 0 /\ ss <= ns
Edge(s) == \E n \in Neighbours(s, R, C) : Between(s, n)
Resolved == step = R * C /\ Occ # {}
EdgesAreFree == Resolved => \A s \in Cells : Edge(s) => s \notin Occ
EdgesBetween == Resolved => \A s \in Cells : Edge(s) => \E n \in Neighbours(s, R, C) : val[near[n]] # val[near[s]]
Complete == Resolved => \A s \in Cells : \A n \in Neighbours(s, R, C) : Sep(s, n) => Edge(s) \/ Edge(n)
\* the region of one obstacle alone has no edge
OneObstacle == Resolved /\ Cardinality({ val[c] : c \in Occ }) = 1 => \A s \in Cells : ~Edge(s)
=============================================================================
