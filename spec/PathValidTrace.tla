--------------------------- MODULE PathValidTrace ---------------------------
(* Validation of whole paths, in mm relative to the position of the map.       *)
(* The path is sampled densely; because validation works on cells and steps,   *)
(* a sample is "clearly bad" if it violates the clearance by more than the     *)
(* interpolation step and the discretisation allow, "clearly good" if every    *)
(* state near it is valid.                                                     *)
EXTENDS GridMath, Common
VARIABLES l, m, occ
vars == <<l, m, occ>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Case == Is("case") /\ m' = E /\ occ' = {}
Occ == Is("occ") /\ occ' = ToSet(E.cells) /\ UNCHANGED m
R(x) == (x + m.hw) \div m.res
C(y) == (y + m.hh) \div m.res
OnMap(x, y) == R(x) >= 0 /\ R(x) < m.rows /\ C(y) >= 0 /\ C(y) < m.cols
Far == 1000000
\* distance from the cell of (x, y) to the nearest obstacle cell, in mm (to 1/100 cell)
Clear(x, y) == IF occ = {} THEN Far
               ELSE (ISqrt(Nearest2(R(x) * m.cols + C(y), occ, m.cols) * 10000) * m.res) \div 100
Outside(x, y) == Max2(0, Max2(Abs(x) - m.hw, Abs(y) - m.hh))
Disc == (m.res * 7) \div 4 + 20
\* two valid states are at most a step of minI apart, or no further than the clearance at the first allows;
\* the cells of two states are up to a diagonal further from each other than the states
Bad(s) == \/ Outside(s[2], s[3]) > m.minI \div 2 + 10
          \/ OnMap(s[2], s[3]) /\ Clear(s[2], s[3]) < m.safe - m.minI \div 2 - (m.res * 142) \div 100 - 20
Good(s) == /\ Abs(s[2]) < m.hw - 60 /\ Abs(s[3]) < m.hh - 60
           /\ OnMap(s[2], s[3]) /\ Clear(s[2], s[3]) >= m.safe + Disc + 60
Same(a, b) == \A i \in 1..3 : Abs(a[i] - b[i]) <= 2
PathEv ==
    /\ Is("path")
    /\ Check("same answer with and without the last valid state", E.ok2 = E.ok /\ E.ok3 = E.ok)
    /\ Check("last valid state", Same(E.lp, E.l3))
    /\ IF E.len = 0 THEN Check("path of length zero", E.ok = E.v0)
       ELSE LET good == TLCEval({ i \in DOMAIN E.s : Good(E.s[i]) }) IN
         /\ Check("clearly valid path", (good = DOMAIN E.s) => E.ok)
         /\ IF E.ok
            THEN /\ Check("ends are valid", E.v0 /\ E.v1)
                 /\ Check("no state of a valid path is clearly invalid", \A i \in DOMAIN E.s : ~Bad(E.s[i]))
                 /\ Check("last ratio of a valid path", E.last = 1000000)
            ELSE IF ~E.v0 THEN Check("invalid initial state", E.last = 0)
            ELSE LET D == IF OnMap(E.lp[1], E.lp[2]) THEN Clear(E.lp[1], E.lp[2]) ELSE Far
                     reach == E.at + Max2(D - m.safe + Disc, m.minI) + 120 IN
                 /\ Check("ratio", E.last >= 0 /\ E.last <= 1000000)
                 /\ Check("last valid state is valid", E.vlast)
                 /\ Check("nothing clearly invalid before it", \A i \in DOMAIN E.s : E.s[i][1] <= E.at => ~Bad(E.s[i]))
                 /\ Check("the path is not clearly valid just after it",
                          \E i \in DOMAIN E.s : E.s[i][1] >= E.at - 60 /\ E.s[i][1] <= reach /\ i \notin good)
    /\ UNCHANGED <<m, occ>>
\* without the last valid state
PathB == /\ Is("pathb")
         /\ IF E.len = 0 THEN Check("path of length zero", E.ok = E.v0)
            ELSE /\ Check("clearly valid path", (\A i \in DOMAIN E.s : Good(E.s[i])) => E.ok)
                 /\ Check("ends are valid", E.ok => E.v0 /\ E.v1)
                 /\ Check("no state of a valid path is clearly invalid", E.ok => \A i \in DOMAIN E.s : ~Bad(E.s[i]))
         /\ UNCHANGED <<m, occ>>
FreeEv == Is("free") /\ Check("free validator", E.ok /\ E.last = 1000) /\ UNCHANGED <<m, occ>>
TraceInit == l = 1 /\ m = <<>> /\ occ = {}
TraceNext == Case \/ Occ \/ PathEv \/ PathB \/ FreeEv
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
