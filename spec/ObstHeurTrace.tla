---------------------------- MODULE ObstHeurTrace ----------------------------
(* The obstacle heuristic: the cheaper multiplier times the length of a         *)
(* shortest grid path to the cell of the goal, less the diagonal of a cell, but  *)
(* at least the multiplier times the straight line.  Lengths in 1/64 m, values   *)
(* in 1e-5 m, multipliers in quarters.                                           *)
EXTENDS GridPlan, Common
VARIABLES l, m
vars == <<gvars, l, m>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Case == /\ Is("case") /\ m' = E /\ rows' = E.rows /\ cols' = E.cols /\ occ' = {} /\ straight' = 100000 /\ diag' = 141421
        /\ price' = [i \in 1..(E.rows * E.cols) |-> 0]
RECURSIVE Root(_, _, _)
Root(v, lo, hi) == IF lo >= hi THEN lo ELSE LET k == (lo + hi + 1) \div 2 IN IF k * k <= v THEN Root(v, k, hi) ELSE Root(v, lo, k - 1)
CellOf(x, y) == << (x - m.ox) \div m.res, (y - m.oy) \div m.res >>
Mult == Min2(m.rv, m.fw)
\* the multiplied straight line, in 1e-5 m
Length16(d2) == IF d2 < 8000000 THEN Root(d2 * 256, 0, 46340) ELSE 8 * Root(d2 * 4, 0, 46340) \* in sixteenths
Line(x, y) == LET dx == x - E.gx dy == y - E.gy d == Length16(dx * dx + dy * dy) IN (((d * 3125) \div 32) * Mult) \div 4
\* the resolution is a multiple of 1/4 m
Grid(D) == ((D * Mult) \div 16) * (m.res \div 16) - (141421 * m.res) \div 64
Value(field, x, y) ==
    LET c == CellOf(x, y) e == Line(x, y) IN
    IF c \notin Cells \/ field[c] = GInf THEN e ELSE Max2(e, Grid(field[c]))
Occ == /\ Is("occ") /\ occ' = { <<E.cells[i][1], E.cells[i][2]>> : i \in DOMAIN E.cells }
       /\ UNCHANGED <<m, rows, cols, straight, diag, price>>
Tol(v) == 60 + 26 * Mult + v \div 2000
Query == /\ Is("query")
         /\ LET t == CellOf(E.gx, E.gy)
                field == IF t \in Cells THEN GDist(t) ELSE [c \in Cells |-> GInf] IN
            Check("value", \A i \in DOMAIN E.val : LET q == E.val[i] v == Value(field, q[1], q[2]) IN
                Abs(q[3] - v) <= Tol(v))
         /\ UNCHANGED <<m, gvars>>
TraceInit == l = 1 /\ m = <<>> /\ rows = 0 /\ cols = 0 /\ occ = {} /\ straight = 0 /\ diag = 0 /\ price = <<>>
TraceNext == Case \/ Occ \/ Query
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
