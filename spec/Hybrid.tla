------------------------------- MODULE Hybrid -------------------------------
(* What a tree grown by Hybrid A* must look like when the search ends.  A node   *)
(* is [par, cell, g, h, goal, rs, kids, shot]: its parent (a set: one of these),  *)
(* cell, cost from the start, heuristic value, whether it is the goal, whether    *)
(* it was reached by a Reeds-Shepp path, the cells its motions lead to, and the   *)
(* cost of the Reeds-Shepp path to the goal (-1: none).  The goal, reached by a   *)
(* Reeds-Shepp path, has a cell of its own.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Parents(T) == UNION { T[i].par : i \in DOMAIN T }
\* all nodes but those for which a cheaper one of the same state was found later
Live(T) == LET best == TLCEval([c \in { T[i].cell : i \in DOMAIN T } |->
                   LET gs == { T[i].g : i \in { j \in DOMAIN T : T[j].cell = c /\ ~T[j].rs } } IN
                   IF gs = {} THEN 0 ELSE CHOOSE g \in gs : \A k \in gs : g <= k]) IN
           { i \in DOMAIN T : T[i].rs \/ T[i].g = best[T[i].cell] }
\* states that were surely expanded: those with children, all of them if the
\* search has failed, and those with less total cost than the solution
Expanded(T, ok, cost, tol) ==
    LET ps == TLCEval(Parents(T)) IN
    { i \in TLCEval(Live(T)) : ~T[i].goal /\ (i \in ps \/ ~ok \/ T[i].g + T[i].h < cost - tol) }
CellsOf(T) == { T[i].cell : i \in DOMAIN T }
Closed(T, X) == LET cs == TLCEval(CellsOf(T)) IN \A i \in X : T[i].kids \subseteq cs
ShotTaken(T, X, ok, cost, tol) == \A i \in X : T[i].shot >= 0 => ok /\ cost <= T[i].g + T[i].shot + tol
=============================================================================
