----------------------------- MODULE PathPieces -----------------------------
(* A path is a sequence of pieces <<length, direction>>: driven one after the  *)
(* other, cut at a length, and joined.                                         *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE TotalTo(_, _)
TotalTo(ps, i) == IF i = 0 THEN 0 ELSE ps[i][1] + TotalTo(ps, i - 1)
Total(ps) == TotalTo(ps, Len(ps))
\* the first s of the path
RECURSIVE Cut(_, _)
Cut(ps, s) == IF ps = <<>> \/ s <= 0 THEN <<>>
              ELSE IF ps[1][1] >= s THEN << <<s, ps[1][2]>> >>
              ELSE << ps[1] >> \o Cut(Tail(ps), s - ps[1][1])
Moving(ps) == SelectSeq(ps, LAMBDA p : p[1] > 0)
\* lengths at which the direction changes
Cusps(ps) == LET m == Moving(ps) IN { TotalTo(m, i) : i \in { j \in 1..(Len(m) - 1) : m[j][2] # m[j + 1][2] } }
\* directions of the pieces around s (two at a joint)
DirsAt(ps, s, tol) == { ps[i][2] : i \in { j \in DOMAIN ps : ps[j][1] > 0 /\ TotalTo(ps, j - 1) - tol <= s /\ s <= TotalTo(ps, j) + tol } }
\* as DirsAt, with the pieces of length zero, which may also have no direction
Near(ps, s, tol) == { j \in DOMAIN ps : TotalTo(ps, j - 1) - tol <= s /\ s <= TotalTo(ps, j) + tol }
DirsNear(ps, s, tol) == { ps[i][2] : i \in Near(ps, s, tol) } \cup (IF \E i \in Near(ps, s, tol) : ps[i][1] = 0 THEN {0} ELSE {})
=============================================================================
