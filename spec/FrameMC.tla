------------------------------ MODULE FrameMC ------------------------------
(* The frame equations used by FrameTrace: cells partition the map, the       *)
(* conversions are inverse to each other and commute with moving the map.     *)
EXTENDS Integers
CONSTANTS N
VARIABLES res, p, w, x, moved
vars == <<res, p, w, x, moved>>
CeilDiv(a, b) == (a + b - 1) \div b
O == p - w \div 2
Cell(v) == (v - O) \div res
Rows == CeilDiv(w, res)
Init == res \in 1..N /\ p \in -N..N /\ w \in { 2 * k : k \in 1..N } /\ x \in (-3 * N)..(3 * N) /\ moved = 0
Move == moved < 1 /\ moved' = moved + 1 /\ p' \in -N..N /\ x' = x + (p' - p) /\ UNCHANGED <<res, w>>
Next == Move
Spec == Init /\ [][Next]_vars
Inside == Cell(x) >= 0 /\ Cell(x) < Rows
Covers == (x >= O /\ x < O + w) => Inside
Corner == /\ O + Cell(x) * res <= x /\ x < O + (Cell(x) + 1) * res
          /\ Cell(O + Cell(x) * res) = Cell(x)
NotBigger == Inside => x < O + w + res /\ x >= O
Invariant == [][Cell(x)' = Cell(x)]_vars
=============================================================================
