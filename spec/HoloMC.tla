------------------------------- MODULE HoloMC -------------------------------
(* Design of the non-holonomic heuristic: a table, computed once from the       *)
(* origin, gives the least cost between any two poses through their relative    *)
(* pose, whatever the cost of forward and backward motion.  A car drives        *)
(* arbitrarily on the quarter-turn lattice from an arbitrary pose.              *)
EXTENDS PoseAlgebra, TLC
CONSTANTS Half, Steps, Fw, Rv
VARIABLES start, at, spent, n, table
vars == <<start, at, spent, n, table>>
Mult(d) == IF d = 1 THEN Fw ELSE Rv
\* relative motions <<pose, cost>>: unit segments and quarter arcs of radius 1
Prim == { << <<d, 0, 0>>, 2 * Mult(d) >> : d \in {1, -1} } \cup { << <<d, s, (s * d + 4) % 4>>, 3 * Mult(d) >> : s \in {1, -1}, d \in {1, -1} }
Window == ((-Half)..Half) \X ((-Half)..Half) \X (0..3)
Far == 100000
\* cheapest way from the origin to every pose of the window
RECURSIVE Relax(_)
Relax(D) == LET from(p, m) == Plus(p, Minus(Zero, m[1]))
                D2 == TLCEval([p \in Window |->
                    LET cs == { D[from(p, m)] + m[2] : m \in { k \in Prim : from(p, k) \in Window } } \cup { D[p] } IN
                    CHOOSE c \in cs : \A e \in cs : c <= e]) IN
            IF D2 = D THEN D ELSE Relax(D2)
Init == /\ start \in { <<0, 0, 0>>, <<3, -2, 1>>, <<-1, 4, 2>>, <<0, 1, 3>> } /\ at = start /\ spent = 0 /\ n = 0
        /\ table = Relax([p \in Window |-> IF p = Zero THEN 0 ELSE Far])
Drive == n < Steps /\ \E m \in Prim : at' = Plus(at, m[1]) /\ spent' = spent + m[2] /\ n' = n + 1 /\ UNCHANGED <<start, table>>
Spec == Init /\ [][Drive]_vars
Delta == Minus(at, start)
\* the table bounds every drive from below, through the relative pose of its end
Bound == Delta \in Window => table[Delta] <= spent
\* the way back costs what it costs with the multipliers exchanged: the relative pose of the
\* start seen from the end is not interchangeable with that of the end seen from the start
Back == Fw = Rv => (Delta \in Window /\ Minus(start, at) \in Window => table[Delta] = table[Minus(start, at)])
Flip == (Delta \in Window) => table[<<Delta[1], -Delta[2], (4 - Delta[3]) % 4>>] = table[Delta]
Line == Delta \in Window => table[Delta] * table[Delta] >= (IF Fw < Rv THEN Fw * Fw ELSE Rv * Rv) * 2 * (Delta[1] * Delta[1] + Delta[2] * Delta[2])
Home == table[Zero] = 0
=============================================================================
