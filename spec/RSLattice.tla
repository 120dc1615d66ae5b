------------------------------ MODULE RSLattice ------------------------------
(* Motions of a car on the lattice of poses <<x, y, k>>: x, y in turning radii, *)
(* heading k quarter turns.  Quarter arcs and unit segments, forward and        *)
(* backward; any sequence of them is a feasible motion, so its length bounds    *)
(* the Reeds-Shepp distance from above.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
QuarterArc == 15708
Unit == 10000
HX == <<1, 0, -1, 0>>
HY == <<0, 1, 0, -1>>
hx(k) == HX[(k % 4) + 1]
hy(k) == HY[(k % 4) + 1]
\* steer s in {1, -1}, direction d: the end of a quarter arc from <<x, y, k>>
Arc(p, s, d) == LET k == p[3] k2 == (k + s * d + 4) % 4 IN
    << p[1] + d * hx(k) + hx(k + s + 4),
       p[2] + d * hy(k) + hy(k + s + 4), k2 >>
Straight(p, d) == << p[1] + d * hx(p[3]), p[2] + d * hy(p[3]), p[3] >>
Moves(p) == { <<Arc(p, s, d), QuarterArc>> : s \in {1, -1}, d \in {1, -1} } \cup { <<Straight(p, d), Unit>> : d \in {1, -1} }
CONSTANT Half
Poses == ((-Half)..Half) \X ((-Half)..Half) \X (0..3)
Far == 1000000
RECURSIVE Relax(_)
Relax(D) == LET D2 == TLCEval([p \in Poses |->
                    LET cs == { D[m[1]] + m[2] : m \in { n \in Moves(p) : n[1] \in Poses } } \cup { D[p] } IN
                    CHOOSE c \in cs : \A e \in cs : c <= e]) IN
            IF D2 = D THEN D ELSE Relax(D2)
\* distances from the origin (the lattice is symmetric: a motion can be driven backwards)
LatticeDist == Relax([p \in Poses |-> IF p = <<0, 0, 0>> THEN 0 ELSE Far])
=============================================================================
