------------------------------- MODULE Raster -------------------------------
(* Cells of a digital straight segment between two cells: for every value of  *)
(* the major coordinate, the cell whose minor coordinate is nearest to the    *)
(* ideal line (either one in case of a tie).                                  *)
EXTENDS Integers, Sequences, FiniteSets
RAbs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Steep(a, b) == RAbs(b[2] - a[2]) > RAbs(b[1] - a[1])
Major(a, b) == IF Steep(a, b) THEN b[2] - a[2] ELSE b[1] - a[1]
Minor(a, b) == IF Steep(a, b) THEN b[1] - a[1] ELSE b[2] - a[2]
CellAt(a, b, m, q) == IF Steep(a, b) THEN <<a[1] + q, a[2] + m>> ELSE <<a[1] + m, a[2] + q>>
\* candidates at major offset m
OnLine(a, b, m) ==
    LET M == Major(a, b) N == Minor(a, b)
        lo == IF N < 0 THEN N ELSE 0
        hi == IF N < 0 THEN 0 ELSE N IN
    { CellAt(a, b, m, q) : q \in { z \in lo..hi : 2 * RAbs(M * z - N * m) <= RAbs(M) } }
Offsets(a, b) == { k * Sgn(Major(a, b)) : k \in 0..RAbs(Major(a, b)) }
Band(a, b) == UNION { OnLine(a, b, m) : m \in Offsets(a, b) }
=============================================================================
