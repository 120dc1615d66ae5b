---------------------------- MODULE PoseAlgebra -----------------------------
(* Poses <<x, y, k>> whose heading is k quarter turns: an exact model of the   *)
(* composition of rigid motions.                                               *)
EXTENDS Integers, Sequences, FiniteSets
CosQ(k) == <<1, 0, -1, 0>>[(k % 4) + 1]
SinQ(k) == <<0, 1, 0, -1>>[(k % 4) + 1]
Rot(k, p) == << CosQ(k) * p[1] - SinQ(k) * p[2], SinQ(k) * p[1] + CosQ(k) * p[2] >>
Plus(a, b) == LET r == Rot(a[3], b) IN << a[1] + r[1], a[2] + r[2], (a[3] + b[3]) % 4 >>
Minus(b, a) == LET r == Rot(4 - a[3], << b[1] - a[1], b[2] - a[2] >>) IN << r[1], r[2], (b[3] - a[3] + 4) % 4 >>
Zero == <<0, 0, 0>>
\* remainder in [0, m)
Mod(x, m) == x % m
Neighbors(r, c, rows, cols) == { n \in (0..(rows - 1)) \X (0..(cols - 1)) : n # <<r, c>> /\ n[1] - r \in {-1, 0, 1} /\ n[2] - c \in {-1, 0, 1} }
=============================================================================
