---------------------------- MODULE PathValidMC ----------------------------
(* Stepping along a straight path on a line of cells: the validator jumps by   *)
(* the clearance left (or the minimal step) and stops at the first invalid     *)
(* state or at the end.  For every obstacle layout and path: a path accepted   *)
(* has no state closer than safe - minI - 1 cell, both ends are valid, and a   *)
(* rejected one reports a valid state before an invalid one.                   *)
EXTENDS Integers, FiniteSets
CONSTANTS Cells, Res
VARIABLES occ, safe, minI, from, to, pos, last, verdict
vars == <<occ, safe, minI, from, to, pos, last, verdict>>
Size == Cells * Res
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Cell(x) == x \div Res
Clear(x) == IF occ = {} THEN 10 * Size ELSE LET D == { AbsI(Cell(x) - o) * Res : o \in occ } IN CHOOSE d \in D : \A e \in D : d <= e
Valid(x) == x >= 0 /\ x < Size /\ Clear(x) >= safe
Dir == IF to >= from THEN 1 ELSE -1
Len == AbsI(to - from)
At(s) == from + Dir * s
Init == /\ occ \in { s \in SUBSET (0..(Cells - 1)) : Cardinality(s) <= 2 }
        /\ safe \in 0..(2 * Res) /\ minI \in 1..2 /\ from \in 0..(Size - 1) /\ to \in -2..(Size + 1)
        /\ pos = 0 /\ last = 0 /\ verdict = "run"
Border(x) == MinI(x, Size - x)
Step == /\ verdict = "run"
        /\ IF ~Valid(At(pos)) THEN verdict' = "bad" /\ UNCHANGED <<pos, last>>
           ELSE /\ last' = pos
                /\ IF pos >= Len THEN verdict' = "ok" /\ UNCHANGED pos
                   ELSE /\ pos' = MinI(Len, pos + MaxI(minI, MinI(Clear(At(pos)) - safe, Border(At(pos)))))
                        /\ UNCHANGED verdict
        /\ UNCHANGED <<occ, safe, minI, from, to>>
Spec == Init /\ [][Step]_vars
Accepted == verdict = "ok" =>
    /\ Valid(from) /\ Valid(to)
    /\ \A s \in 0..Len : At(s) >= -minI /\ At(s) <= Size + minI
                         /\ (At(s) >= 0 /\ At(s) < Size => Clear(At(s)) > safe - minI - Res)
Rejected == verdict = "bad" =>
    /\ (pos = 0 => last = 0) /\ (pos > 0 => Valid(At(last)) /\ last < pos) /\ ~Valid(At(pos))
AllValid == verdict = "bad" => \E s \in 0..Len : ~Valid(At(s))
=============================================================================
