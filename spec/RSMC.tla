-------------------------------- MODULE RSMC --------------------------------
(* Design model: words and their transforms, driven on the quarter-turn        *)
(* lattice.  A behaviour drives an arbitrary sequence of motions.              *)
EXTENDS RSWords, RSLattice
CONSTANT MaxMotions
VARIABLES p, ms, D
vars == <<p, ms, D>>
Drive(q, m) == IF m[1] = 0 THEN Straight(q, m[2]) ELSE Arc(q, m[1], m[2])
Steps == { <<s, d, IF s = 0 THEN Unit ELSE QuarterArc>> : s \in {1, 0, -1}, d \in {1, -1} }
RECURSIVE DriveAll(_, _, _)
DriveAll(q, seq, i) == IF i > Len(seq) THEN q ELSE DriveAll(Drive(q, seq[i]), seq, i + 1)
Origin == <<0, 0, 0>>
Init == p = Origin /\ ms = <<>> /\ D = LatticeDist
Next == Len(ms) < MaxMotions /\ \E m \in Steps : p' = Drive(p, m) /\ ms' = Append(ms, m) /\ UNCHANGED D
Spec == Init /\ [][Next]_vars
Mod4(k) == (k + 8) % 4
\* a reflected motion ends at the mirrored pose, a time-flipped one at the point reflected pose
ReflectEnd == DriveAll(Origin, Reflect(ms), 1) = << p[1], -p[2], Mod4(-p[3]) >>
TimeflipEnd == DriveAll(Origin, Timeflip(ms), 1) = << -p[1], p[2], Mod4(-p[3]) >>
\* driving back returns to the origin with the same length
BackEnd == DriveAll(p, Backwards(ms), 1) = Origin /\ Length(Backwards(ms)) = Length(ms)
Involutive == Reflect(Reflect(ms)) = ms /\ Timeflip(Timeflip(ms)) = ms /\ Backwards(Backwards(ms)) = ms
Bound == p \in Poses => D[p] <= Length(ms)
Straighter == LET u == Length(ms) \div 100 IN u * u >= 10000 * (p[1] * p[1] + p[2] * p[2])
Words == { Shape(Word(w, 1, 1, 1)) : w \in 0..47 }
Marked == { Word(w, 1, 1, 1) : w \in 0..47 }
ASSUME Cardinality(Marked) = 48
\* the set of words is closed under all transforms
ASSUME \A w \in Marked : Reflect(w) \in Marked /\ Timeflip(w) \in Marked /\ Backwards(w) \in Marked
ASSUME \A w \in 0..47 : LET m == Word(w, 1, 1, 1) IN \A i \in 1..(Len(m) - 1) : m[i][1] # m[i + 1][1] \/ m[i][2] # m[i + 1][2]
=============================================================================
