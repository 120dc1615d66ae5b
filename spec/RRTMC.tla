-------------------------------- MODULE RRTMC --------------------------------
(* Design model of RRT and RRT* on a few points of a line or square: any sample, *)
(* any set of blocked connections, any limit.                                    *)
EXTENDS RRT, TLC
CONSTANTS Pts, Star, MaxIter, MaxNodes, BlockMax
VARIABLES blocked, goal, par, cost, iters, status, path
vars == <<blocked, goal, par, cost, iters, status, path>>
PtsDef == << <<0, 0>>, <<1, 0>>, <<2, 0>>, <<0, 2>>, <<2, 1>> >>
Points == 1..Len(Pts)
D2(a, b) == LET p == Pts[a] q == Pts[b] IN (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
D(a, b) == Sqrt(10000 * D2(a, b))
Pairs == { s \in SUBSET Points : Cardinality(s) = 2 }
Valid(a, b) == {a, b} \notin blocked
Nodes == DOMAIN par
Nearest(q, S) == { n \in S : \A m \in S : D2(n, q) <= D2(m, q) }
Init == /\ blocked \in { s \in SUBSET Pairs : Cardinality(s) <= BlockMax } /\ goal \in Points \ {1}
        /\ par = [n \in {1} |-> 0] /\ cost = [n \in {1} |-> 0] /\ iters = 0 /\ status = "run" /\ path = <<>>
Grow(n, p) == IF n \in Nodes THEN UNCHANGED <<par, cost>>
              ELSE /\ par' = [m \in Nodes \cup {n} |-> IF m = n THEN p ELSE par[m]]
                   /\ cost' = [m \in Nodes \cup {n} |-> IF m = n THEN cost[p] + D(p, n) ELSE cost[m]]
Step == /\ status = "run" /\ iters < MaxIter /\ Cardinality(Nodes) < MaxNodes
        /\ iters' = iters + 1
        /\ \E q \in Points : \E near \in Nearest(q, Nodes) :
             IF ~Valid(near, q) THEN UNCHANGED <<par, cost, status, path>>
             ELSE LET k == { n \in Nodes : Cardinality({ m \in Nodes : D2(m, q) < D2(n, q) }) < Neighbours(Cardinality(Nodes) + 6) }
                      ok == { n \in k : Valid(n, q) } \cup {near}
                      best == CHOOSE n \in ok : \A m \in ok : cost[n] + D(n, q) <= cost[m] + D(m, q) IN
                  /\ Grow(q, IF Star THEN best ELSE near)
                  /\ IF q = goal THEN status' = "found" /\ path' = PathTo(par', q) ELSE UNCHANGED <<status, path>>
        /\ UNCHANGED <<blocked, goal>>
GiveUp == /\ status = "run" /\ (iters = MaxIter \/ Cardinality(Nodes) = MaxNodes) /\ status' = "failed" /\ UNCHANGED <<blocked, goal, par, cost, iters, path>>
Next == Step \/ GiveUp
Spec == Init /\ [][Next]_vars
RECURSIVE Length(_)
Length(p) == IF Len(p) < 2 THEN 0 ELSE D(p[1], p[2]) + Length(Tail(p))
\* every edge of the tree was checked
Safe == \A n \in Nodes : n = 1 \/ Valid(par[n], n)
Rooted == \A n \in Nodes : PathTo(par, n)[1] = 1
Costs == \A n \in Nodes : cost[n] = Length(PathTo(par, n))
Answer == (status = "found") => path[1] = 1 /\ path[Len(path)] = goal /\ \A i \in 1..(Len(path) - 1) : Valid(path[i], path[i + 1])
NoAnswer == (status # "found") => path = <<>>
Limits == iters <= MaxIter /\ Cardinality(Nodes) <= MaxNodes
=============================================================================
