------------------------------- MODULE AStar -------------------------------
(***************************************************************************)
(* Best-first search over a weighted digraph.                               *)
(*                                                                          *)
(* The graph has nodes 1..n and edges <<u, v, cost>>.  `open[v]` is the     *)
(* cost of the pending path to v (Inf: v is not pending); `closed` is the   *)
(* set of states already expanded.  A graph search never revisits a closed  *)
(* state; a tree search may.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES n, edges, start, goal, h, tree, open, closed, phase

avars == <<n, edges, start, goal, h, tree, open, closed, phase>>
AInf == 2147483647
AMin(a, b) == IF a < b THEN a ELSE b
AddC(a, b) == IF a = AInf \/ b = AInf THEN AInf ELSE a + b
AMinOf(S) == IF S = {} THEN AInf ELSE CHOOSE x \in S : \A y \in S : x <= y

\* ----- the mathematical problem: cheapest distances from s -----------------
RECURSIVE Relax(_, _, _, _)
Relax(D, E, I, k) ==
    IF k = 0 THEN D
    ELSE LET D2 == TLCEval([v \in DOMAIN D |-> AMin(D[v], AMinOf({ AddC(D[E[i][1]], E[i][3]) : i \in I[v] }))])
         IN IF D2 = D THEN D ELSE Relax(D2, E, I, k - 1)
\* edges into each node
Into(N, E) == TLCEval([v \in 1..N |-> { j \in DOMAIN E : E[j][2] = v }])
Dist(N, E, s) == Relax([v \in 1..N |-> IF v = s THEN 0 ELSE AInf], E, Into(N, E), N)
Rev(E) == [i \in DOMAIN E |-> <<E[i][2], E[i][1], E[i][3]>>]
\* cheapest single edge from u to v
EdgeCost(E, u, v) == AMinOf({ E[i][3] : i \in { j \in DOMAIN E : E[j][1] = u /\ E[j][2] = v } })
RECURSIVE WalkCost(_, _, _)
WalkCost(E, p, i) == IF i >= Len(p) THEN 0 ELSE AddC(EdgeCost(E, p[i], p[i + 1]), WalkCost(E, p, i + 1))
Consistent(N, E, hh, t) == hh[t] = 0 /\ \A i \in DOMAIN E : hh[E[i][1]] <= E[i][3] + hh[E[i][2]]

\* ----- the search -----------------------------------------------------------
Pending == { v \in 1..n : open[v] # AInf }
F(v) == AddC(open[v], h[v])
IsBest(v) == v \in Pending /\ \A w \in Pending : F(v) <= F(w)

AStart(s, t, hh, tr) ==
    /\ start' = s /\ goal' = t /\ h' = hh /\ tree' = tr
    /\ open' = [v \in 1..n |-> IF v = s THEN 0 ELSE AInf]
    /\ closed' = {} /\ phase' = "search"
    /\ UNCHANGED <<n, edges>>
\* expand a best pending state other than the goal
AExpand(s) ==
    /\ phase = "search" /\ s # goal /\ IsBest(s)
    /\ closed' = closed \cup {s}
    /\ LET out == { i \in DOMAIN edges : edges[i][1] = s }
           rest == [open EXCEPT ![s] = AInf] IN
       open' = [v \in 1..n |->
                  IF ~tree /\ v \in closed' THEN rest[v]
                  ELSE AMin(rest[v], AMinOf({ open[s] + edges[i][3] : i \in { j \in out : edges[j][2] = v } }))]
    /\ UNCHANGED <<n, edges, start, goal, h, tree, phase>>
\* the goal is a best pending state: it is the result
ASucceed(cost) ==
    /\ phase = "search" /\ IsBest(goal) /\ cost = open[goal]
    /\ phase' = "done"
    /\ UNCHANGED <<n, edges, start, goal, h, tree, open, closed>>
AFail ==
    /\ phase = "search" /\ Pending = {}
    /\ phase' = "done"
    /\ UNCHANGED <<n, edges, start, goal, h, tree, open, closed>>
=============================================================================
