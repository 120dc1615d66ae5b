----------------------------- MODULE RSKinTrace -----------------------------
(* A Reeds-Shepp path drives like a car with the given turning radius from     *)
(* the start to the goal.  Lengths in 0.1 mm, angles in 0.1 mrad.              *)
EXTENDS RSWords, Common
VARIABLES l
vars == <<l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TwoPi == 62832
\* difference of two headings, in [-pi, pi]
Turn(d) == ((d + 31416 + 10 * TwoPi) % TwoPi) - 31416
Near(a, b, tol) == Abs(a - b) <= tol
SamePose(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol) /\ Abs(Turn(a[3] - b[3])) <= tol
Case == Is("case")
\* fixed point product of a length (units) and a number scaled by 10000
Scale(a, b) == IF a < 0 THEN -((((-a) \div 10) * b) \div 1000) ELSE ((a \div 10) * b) \div 1000
\* one step st = <<motion, ds, x0, y0, th0, thMid, cosMid, sinMid, x1, y1, th1, direction>>
StepOK(e, s) ==
    LET m == e.mot[s[1]]
        ds == s[2]
        turn == m[1] * m[2] * ds
        \* chord of the arc: ds - ds^3/24
        chord == IF m[1] = 0 THEN ds ELSE ds - (((ds * ds) \div 10000) * ds) \div 240000
        d == m[2] * (((chord * (e.R \div 10)) \div 1000)) IN
    /\ Abs(Turn(s[11] - s[5] - turn)) <= 4
    /\ Abs(Turn(s[6] - s[5] - turn \div 2)) <= 4
    /\ Abs(s[9] - s[3] - Scale(d, s[7])) <= 12
    /\ Abs(s[10] - s[4] - Scale(d, s[8])) <= 12
    /\ s[12] = m[2]
\* consecutive steps join
Joined(e) == \A i \in 1..(Len(e.st) - 1) : SamePose(<<e.st[i][9], e.st[i][10], e.st[i][11]>>, <<e.st[i + 1][3], e.st[i + 1][4], e.st[i + 1][5]>>, 4)
\* indices of the motions which have a length
Moving(e) == { i \in DOMAIN e.mot : e.mot[i][3] > 0 }
RECURSIVE Upto(_, _)
Upto(ms, i) == IF i = 0 THEN 0 ELSE ms[i][3] + Upto(ms, i - 1)
SwitchAt(e) == { Upto(e.mot, i - 1) : i \in { j \in Moving(e) : \E k \in Moving(e) : k < j /\ e.mot[k][2] # e.mot[j][2] /\ \A n \in Moving(e) : ~(k < n /\ n < j) } }
PathOK(e) ==
    /\ Check("a path exists", Len(e.mot) > 0)
    /\ Check("motions", \A i \in DOMAIN e.mot : e.mot[i][3] >= 0 /\ e.mot[i][2] \in {1, -1})
    /\ Check("starts at the start", SamePose(e.init, e.s, 3) /\ SamePose(e.at0, e.s, 3))
    /\ Check("ends at the goal", SamePose(e.fin, e.g, 12) /\ SamePose(e.at1, e.g, 12))
    /\ LET total == Length(e.mot) len == (total * (e.R \div 10)) \div 1000 IN
       /\ Check("length is the sum of the motions", Near(e.len, len, 25) /\ e.slen = e.len)
       /\ Check("at least the shortest distance", total + 10 >= e.dist)
       /\ Check("shortest path has the shortest distance", e.e = "short" => Near(total, e.dist, 10))
    /\ Check("kinematics", \A i \in DOMAIN e.st : StepOK(e, e.st[i]))
    /\ Check("continuous", Joined(e))
    /\ LET sw == TLCEval(SwitchAt(e)) total == Length(e.mot) tiny == \E i \in DOMAIN e.mot : e.mot[i][3] \in 1..3 IN
       Check("cusps where the direction changes", tiny \/ total = 0 \/
             ( /\ Len(e.cusps) = Cardinality(sw)
               /\ \A a \in sw : \E i \in DOMAIN e.cusps : Near((e.cusps[i] * (total \div 10)) \div 1000, a, 30 + total \div 2000) ))
Short == Is("short") /\ PathOK(E)
Opt == Is("opt") /\ PathOK(E)
Conn == /\ Is("conn")
        /\ Check("connection starts at the start", SamePose(E.init, E.s, 3) /\ SamePose(E.at0, E.s, 3))
        /\ Check("connection ends at the goal", SamePose(E.fin, E.g, 12) /\ SamePose(E.at1, E.g, 12))
        /\ Check("connection is the optimal path", Near(E.len, E.olen, 2))
TraceInit == l = 1
TraceNext == Case \/ Short \/ Opt \/ Conn
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
