------------------------------ MODULE AStarMC ------------------------------
(* All weighted digraphs on a few nodes, all consistent heuristics, all      *)
(* start/goal pairs, all tie-breaks: the search finds a cheapest path, and   *)
(* fails only if the goal is unreachable; a closed state is never re-opened. *)
EXTENDS AStar, TLC
CONSTANTS Nodes, Costs, HMax
NoEdge == -1
Pairs == { <<u, v>> \in (1..Nodes) \X (1..Nodes) : u # v }
SeqOf(f) == LET P == { p \in Pairs : f[p] # NoEdge }
                RECURSIVE Go(_)
                Go(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE q \in S : TRUE IN <<<<p[1], p[2], f[p]>>>> \o Go(S \ {p})
            IN Go(P)
Init == \E f \in [Pairs -> Costs \cup {NoEdge}] : LET E == SeqOf(f) IN
          \E t \in 1..Nodes : \E hh \in [1..Nodes -> 0..HMax] :
            /\ Consistent(Nodes, E, hh, t)
            /\ n = Nodes /\ edges = E /\ start = 1 /\ goal = t /\ h = hh /\ tree = FALSE
            /\ open = [v \in 1..Nodes |-> IF v = 1 THEN 0 ELSE AInf]
            /\ closed = {} /\ phase = "search"
Next == (\E s \in 1..n : AExpand(s)) \/ (phase = "search" /\ ASucceed(open[goal])) \/ AFail
Spec == Init /\ [][Next]_avars
D == Dist(n, edges, start)
Optimal == phase = "done" => open[goal] = D[goal]
\* every pending cost is that of a real path, and a best pending state is settled
Sound == \A v \in Pending : open[v] >= D[v] /\ (IsBest(v) => open[v] = D[v] \/ phase = "done")
Once == Pending \cap closed = {}
\* best-first: nothing above the optimal cost is ever expanded
Lean == \A v \in closed : D[goal] = AInf \/ D[v] + h[v] <= D[goal]
=============================================================================
