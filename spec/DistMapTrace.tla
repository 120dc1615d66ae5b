---------------------------- MODULE DistMapTrace ----------------------------
(* Distance map: after an update, every cell knows the nearest obstacle cell  *)
(* and its distance.  Exact on grids up to 12 x 12; on larger grids the       *)
(* 8-neighbour wavefront may overestimate by less than a quarter of a cell.   *)
EXTENDS GridMath, Common
VARIABLES l, rows, cols, obst
vars == <<l, rows, cols, obst>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Case == Is("case") /\ rows' = E.rows /\ cols' = E.cols /\ obst' = {}
Set == Is("set") /\ obst' = obst \cup {E.c} /\ UNCHANGED <<rows, cols>>
Unset == Is("unset") /\ obst' = obst \ {E.c} /\ UNCHANGED <<rows, cols>>
Occ == Is("occ") /\ obst' = ToSet(E.cells) /\ UNCHANGED <<rows, cols>>
Exact == rows <= 12 /\ cols <= 12
Slack(b) == IF Exact THEN 0 ELSE (ISqrt(b) + 1) \div 2 + 1
CellOK(c, d, n) ==
    IF obst = {} THEN d = -1 /\ n = -1
    ELSE LET b == Nearest2(c, obst, cols) IN
         /\ n \in obst /\ d = D2(c, n, cols)
         /\ d >= b /\ d - b <= Slack(b)
Upd == /\ Is("upd")
       /\ Check("dimensions", Len(E.d) = rows * cols /\ Len(E.n) = rows * cols)
       /\ Check("distance to the nearest obstacle", \A c \in 0..(rows * cols - 1) : CellOK(c, E.d[c + 1], E.n[c + 1]))
       /\ UNCHANGED <<rows, cols, obst>>
TraceInit == l = 1 /\ rows = 0 /\ cols = 0 /\ obst = {}
TraceNext == Case \/ Set \/ Unset \/ Occ \/ Upd
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
