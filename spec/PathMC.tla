------------------------------- MODULE PathMC -------------------------------
(* Design model: histories of appending segments to a path and cutting it.     *)
EXTENDS PathPieces, TLC
CONSTANTS MaxLen, MaxSegs
VARIABLES segs, cur, log
vars == <<segs, cur, log>>
\* segs: sequence of segments, each a sequence of pieces; cur: flattened path
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Piece == (0..MaxLen) \X {1, -1}
Segments == { <<p>> : p \in Piece } \cup { <<p, q>> : p \in Piece, q \in Piece }
\* cutting a composite: find the segment, cut it, drop the rest
RECURSIVE CutSegs(_, _)
CutSegs(ss, s) == IF ss = <<>> THEN <<>>
                  ELSE LET t == Total(Head(ss)) IN
                       IF s < t THEN << Cut(Head(ss), s) >> ELSE << Head(ss) >> \o CutSegs(Tail(ss), s - t)
Init == segs = <<>> /\ cur = <<>> /\ log = 0
Push == Len(segs) < MaxSegs /\ \E p \in Segments : segs' = Append(segs, p) /\ cur' = cur \o p /\ log' = log + Total(p)
Trunc == \E s \in 0..log : segs' = CutSegs(segs, s) /\ cur' = Cut(cur, s) /\ log' = s
Next == Push \/ Trunc
Spec == Init /\ [][Next]_vars
TypeOK == log = Total(cur) /\ Total(Flat(segs)) = log
\* the composite is the concatenation of its segments
Same == Moving(Flat(segs)) = Moving(cur)
SameCusps == Cusps(Flat(segs)) = Cusps(cur)
Inside == \A c \in Cusps(cur) : 0 < c /\ c < log
\* cutting twice is cutting once
Twice == \A s \in 0..log : \A t \in 0..s : Cut(Cut(cur, s), t) = Cut(cur, t)
Prefix == \A s \in 0..log : Cusps(Cut(cur, s)) = { c \in Cusps(cur) : c < s }
Directed == \A s \in 0..log : log > 0 => DirsAt(cur, s, 0) # {} /\ (Cardinality(DirsAt(cur, s, 0)) = 2 => s \in Cusps(cur))
=============================================================================
