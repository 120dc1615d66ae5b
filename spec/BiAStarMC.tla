----------------------------- MODULE BiAStarMC -----------------------------
(* All small weighted graphs (symmetric, plus one-way edges), with the       *)
(* heuristic pair built from scaled-down true distances: the result of the   *)
(* bidirectional design equals the cheapest distance, for all tie-breaks.    *)
EXTENDS BiAStar, TLC
CONSTANTS Nodes, Costs, OneWay
NoEdge == -1
Pairs == { <<u, v>> \in (1..Nodes) \X (1..Nodes) : IF OneWay THEN u # v ELSE u < v }
SeqOf(f) == LET P == { p \in Pairs : f[p] # NoEdge }
                RECURSIVE Go(_)
                Go(S) == IF S = {} THEN <<>>
                         ELSE LET p == CHOOSE q \in S : TRUE IN
                              <<<<p[1], p[2], f[p]>>>> \o (IF OneWay THEN <<>> ELSE <<<<p[2], p[1], f[p]>>>>) \o Go(S \ {p})
            IN Go(P)
Cap(d, c) == [v \in DOMAIN d |-> AMin(d[v], c)]
Init == \E f \in [Pairs -> Costs \cup {NoEdge}] : LET E == SeqOf(f) IN
          \E t \in 1..Nodes : \E cap \in {0, 1, 3, 100} : \E cap2 \in {0, 2, 100} :
          /\ BStart(Nodes, E, 1, t, Cap(Dist(Nodes, Rev(E), t), cap), Cap(Dist(Nodes, E, 1), cap2))
          /\ h = <<>> /\ tree = FALSE /\ open = <<>> /\ closed = {} /\ phase = "bi"
Next == BNext /\ UNCHANGED <<h, tree, open, closed, phase>>
vars == <<bvars, h, tree, open, closed, phase>>
Spec == Init /\ [][Next]_vars
D == Dist(n, edges, start)
Optimal == bphase = "done" => best = D[goal]
Sound == best = AInf \/ best >= D[goal]
=============================================================================
