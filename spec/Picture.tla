------------------------------ MODULE Picture -------------------------------
(***************************************************************************)
(* Pictures of a grid: one pixel per cell, the row index of the cell to     *)
(* the right and the column index upwards (the file starts with the top     *)
(* line).  Colours of the diagram: the hue tells the obstacle k of n, the   *)
(* brightness v (0..10000) is one less the path cost.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* position in the file (from 1) of cell <<r, c>>, and back
PixelOf(r, c, rows, cols) == (cols - 1 - c) * rows + r + 1
CellAt(i, rows, cols) == << (i - 1) % rows, cols - 1 - ((i - 1) \div rows) >>
PAbs(x) == IF x < 0 THEN -x ELSE x
\* hue k/n of the colour circle, full saturation, brightness v: channels 0..255
Wheel(k, n, v) ==
    LET t == (6 * k) % (2 * n)
        C == v
        X == (v * (n - PAbs(t - n))) \div n
        s == (6 * k) \div n
        c == CASE s = 0 -> <<C, X, 0>> [] s = 1 -> <<X, C, 0>> [] s = 2 -> <<0, C, X>>
               [] s = 3 -> <<0, X, C>> [] s = 4 -> <<X, 0, C>> [] OTHER -> <<C, 0, X>>
    IN [i \in 1..3 |-> (c[i] * 255) \div 10000]
Black == <<0, 0, 0>>
Near(a, b) == \A i \in 1..3 : PAbs(a[i] - b[i]) <= 1
=============================================================================
