------------------------------ MODULE GridPlan ------------------------------
(***************************************************************************)
(* Planning on an occupancy grid.  A robot may step to any of the (up to)   *)
(* eight neighbouring cells that is inside the map and free; a diagonal     *)
(* step between two occupied cells is not possible.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES rows, cols, occ, straight, diag, price
gvars == <<rows, cols, occ, straight, diag, price>>
GInf == 2147483647
Cells == (0..(rows - 1)) \X (0..(cols - 1))
Around(c) == { d \in ((c[1] - 1)..(c[1] + 1)) \X ((c[2] - 1)..(c[2] + 1)) :
                 d # c /\ d[1] >= 0 /\ d[1] < rows /\ d[2] >= 0 /\ d[2] < cols }
IsDiag(c, d) == c[1] # d[1] /\ c[2] # d[2]
Squeezed(c, d) == IsDiag(c, d) /\ <<d[1], c[2]>> \in occ /\ <<c[1], d[2]>> \in occ
Steps(c) == { d \in Around(c) : d \notin occ /\ ~Squeezed(c, d) }
StepCost(c, d) == (IF IsDiag(c, d) THEN diag ELSE straight) + price[d[1] * cols + d[2] + 1]
RECURSIVE Settle(_, _)
\* wave front relaxation from the cells whose cost improved last
Settle(D, front) ==
    IF front = {} THEN D
    ELSE LET touched == TLCEval(UNION { Steps(c) : c \in front })
             Best[d \in touched] == LET S == { D[c] + StepCost(c, d) : c \in { x \in Around(d) : x \in front /\ d \in Steps(x) } } IN CHOOSE m \in S : \A k \in S : m <= k
             B == TLCEval(Best)
             better == TLCEval({ d \in touched : B[d] < D[d] })
         IN Settle(TLCEval([c \in DOMAIN D |-> IF c \in better THEN B[c] ELSE D[c]]), better)
GDist(s) == Settle([c \in Cells |-> IF c = s THEN 0 ELSE GInf], {s})
RECURSIVE PathCost(_, _)
PathCost(p, i) == IF i >= Len(p) THEN 0 ELSE StepCost(p[i], p[i + 1]) + PathCost(p, i + 1)
LegalPath(p) == /\ \A i \in DOMAIN p : p[i] \in Cells
                /\ \A i \in 1..(Len(p) - 1) : p[i + 1] \in Steps(p[i])
=============================================================================
