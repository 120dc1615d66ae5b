------------------------------ MODULE ValidMC ------------------------------
(* Validity of a position on a small map, as in ValidTrace: a larger safety    *)
(* radius or one more obstacle never makes an invalid position valid, and an    *)
(* obstacle cell is invalid for every positive radius.                          *)
EXTENDS GridMath
CONSTANTS R, C, Res
VARIABLES occ, safe, x, y
vars == <<occ, safe, x, y>>
Cell == (x \div Res) * C + (y \div Res)
Valid(o, s) == x >= 0 /\ x <= R * Res /\ y >= 0 /\ y <= C * Res /\ x \div Res < R /\ y \div Res < C
               /\ (o = {} \/ Nearest2(Cell, o, C) * Res * Res >= s * s)
Init == occ = {} /\ safe \in 0..(2 * Res) /\ x \in -1..(R * Res + 1) /\ y \in -1..(C * Res + 1)
Add(c) == occ' = occ \cup {c} /\ UNCHANGED <<safe, x, y>>
Grow == safe < 2 * Res /\ safe' = safe + 1 /\ UNCHANGED <<occ, x, y>>
Next == Grow \/ \E c \in 0..(R * C - 1) : Add(c)
Spec == Init /\ [][Next]_vars
Monotone == [][Valid(occ, safe)' => Valid(occ, safe)]_vars
OnObstacle == safe > 0 /\ x >= 0 /\ y >= 0 /\ x < R * Res /\ y < C * Res /\ Cell \in occ => ~Valid(occ, safe)
=============================================================================
