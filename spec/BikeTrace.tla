------------------------------ MODULE BikeTrace ------------------------------
(* The bicycle model: the rear axle, b behind the reference point, drives along *)
(* the heading while the heading turns by distance * tan(steer) / wheelbase.    *)
(* Poses <<x, y, theta, cos, sin>> in 0.1 mm, 0.1 mrad, 1e-4; L, b in cm;        *)
(* tan in 1/100.  Steps are at most 1 m and 0.25 rad.                           *)
EXTENDS Common
VARIABLES l, L, b
vars == <<l, L, b>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TwoPi == 62832
Turn(d) == ((d + 31416 + 20 * TwoPi) % TwoPi) - 31416
Angle(x, y, tol) == Abs(Turn(x - y)) <= tol
Close(p, q, tol) == Abs(p[1] - q[1]) <= tol /\ Abs(p[2] - q[2]) <= tol /\ Angle(p[3], q[3], tol)
Rear(p) == << p[1] - (b * p[4]) \div 100, p[2] - (b * p[5]) \div 100 >>
Sgn(x) == IF x < 0 THEN -1 ELSE 1
\* turn over one step, rounded, and the chord of the arc
Dth(e) == Sgn(e.tan) * ((e.step * Abs(e.tan) + L \div 2) \div L)
Chord(e) == e.step - (e.step * ((Dth(e) * Dth(e)) \div 2400)) \div 1000000
Fst(v) == SubSeq(v, 1, 5)
Mid(v) == SubSeq(v, 6, 10)
StepOK(e, p, v) ==
    LET q == Fst(v) m == Mid(v) r == Rear(p) s == Rear(q) c == Chord(e) IN
    /\ Angle(q[3], p[3] + e.dir * Dth(e), 3)
    /\ Angle(m[3], p[3] + (e.dir * Dth(e)) \div 2, 3)
    /\ Abs(s[1] - r[1] - e.dir * ((c * m[4]) \div 10000)) <= 8
    /\ Abs(s[2] - r[2] - e.dir * ((c * m[5]) \div 10000)) <= 8
    /\ Abs(q[3]) <= 31417
Case == Is("case") /\ L' = E.L /\ b' = E.b
Drive == /\ Is("drive")
         /\ Check("each step turns and moves the rear axle", \A i \in DOMAIN E.st : StepOK(E, IF i = 1 THEN E.p ELSE Fst(E.st[i - 1]), E.st[i]))
         /\ Check("a distance is driven the same in one or several steps", Close(E.whole, Fst(E.st[Len(E.st)]), 3))
         /\ Check("driving back returns to the start", Close(E.back, E.p, 3))
         /\ Check("path", Close(E.path, E.whole, 1) /\ Abs(E.plen - Len(E.st) * E.step) <= 2 /\ Close(E.half, E.half2, 1))
         /\ UNCHANGED <<L, b>>
\* d m with a steering angle of tan 1e-6: little turn over a long way, starting at the origin
Drift == /\ Is("drift")
         /\ LET turn == Sgn(E.tan) * ((E.d * Abs(E.tan)) \div L)
                side == Sgn(E.tan) * ((E.d * E.d * Abs(E.tan)) \div (2 * L)) IN
            /\ Check("heading over a long way", Abs(E.th - E.dir * turn) <= 2)
            /\ Check("sideways over a long way", Abs(E.y - side) <= 4 + E.d \div 2)
            /\ Check("length over a long way", Abs(E.x - E.dir * (E.d * 10000 - (E.d * turn * (turn \div 10)) \div 6000)) <= 8 + E.d \div 3)
         /\ UNCHANGED <<L, b>>
Radius == /\ Is("radius")
          /\ Check("steering angle", IF E.R < b THEN Abs(E.steer - 15708) <= 1
                ELSE E.steer > 0 /\ E.steer <= 15709 /\ Abs(E.rho * E.rho + 100 * b * b - 100 * E.R * E.R) <= 2 * Abs(E.rho) + 10)
          /\ UNCHANGED <<L, b>>
TraceInit == l = 1 /\ L = 1 /\ b = 0
TraceNext == Case \/ Drive \/ Drift \/ Radius
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
