----------------------------- MODULE ValidTrace -----------------------------
(* A pose is valid iff it is within the bounds of the state space (around the  *)
(* position of the map), on the map, and the nearest obstacle cell is at least  *)
(* the safety radius away.  Lengths in 1/64 m, angles in microradians.          *)
EXTENDS GridMath, Common
VARIABLES l, m, occ, safe
vars == <<l, m, occ, safe>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
CeilDiv(a, b) == (a + b - 1) \div b
Case == /\ Is("case") /\ m' = E /\ occ' = {} /\ safe' = 0
        /\ Check("size of the map", E.rows = CeilDiv(2 * E.hw, E.res) /\ E.cols = CeilDiv(2 * E.hh, E.res))
Occ == Is("occ") /\ occ' = ToSet(E.cells) /\ safe' = E.safe /\ UNCHANGED m
InBounds == /\ Abs(E.x - m.cx) <= m.hw /\ Abs(E.y - m.cy) <= m.hh /\ E.th >= m.tl /\ E.th <= m.tu
R == (E.x - m.cx + m.hw) \div m.res
C == (E.y - m.cy + m.hh) \div m.res
Valid == /\ InBounds /\ R >= 0 /\ R < m.rows /\ C >= 0 /\ C < m.cols
         /\ (occ = {} \/ Nearest2(R * m.cols + C, occ, m.cols) * m.res * m.res >= safe * safe)
State == /\ Is("state")
         /\ Check("validity", E.ok = Valid)
         /\ Check("validity without obstacles", E.free = InBounds)
         /\ UNCHANGED <<m, occ, safe>>
TraceInit == l = 1 /\ m = <<>> /\ occ = {} /\ safe = 0
TraceNext == Case \/ Occ \/ State
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
