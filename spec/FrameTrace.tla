----------------------------- MODULE FrameTrace -----------------------------
(* The world, local and grid frames of a map: the map is centred at its       *)
(* position, cell (r, c) covers [r, r+1) x [c, c+1) resolutions from its      *)
(* lower corner.                                                              *)
EXTENDS Integers, Sequences, Common
VARIABLES l, res, px, py, w, h, rows, cols
vars == <<l, res, px, py, w, h, rows, cols>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
CeilDiv(a, b) == (a + b - 1) \div b
Case == Is("case") /\ res' = E.res /\ px' = 0 /\ py' = 0 /\ w' = 0 /\ h' = 0 /\ rows' = 0 /\ cols' = 0
Position == /\ Is("position") /\ px' = E.x /\ py' = E.y
            /\ Check("position", E.gx = E.x /\ E.gy = E.y)
            /\ UNCHANGED <<res, w, h, rows, cols>>
Size == /\ Is("size") /\ w' = E.w /\ h' = E.h
        /\ Check("rows and columns", E.rows = CeilDiv(E.w, res) /\ E.cols = CeilDiv(E.h, res))
        /\ rows' = E.rows /\ cols' = E.cols /\ UNCHANGED <<res, px, py>>
Query ==
    /\ Is("q")
    /\ LET ox == px - w \div 2 oy == py - h \div 2
           cell == <<(E.x - ox) \div res, (E.y - oy) \div res>>
           in == cell[1] >= 0 /\ cell[1] < rows /\ cell[2] >= 0 /\ cell[2] < cols
           bnd == IF in THEN cell ELSE <<-1, -1>> IN
       /\ Check("local position", E.local = <<E.x - px, E.y - py>>)
       /\ Check("world position of the local position", E.back = <<E.x, E.y>>)
       /\ Check("cell of a world position", E.u = cell)
       /\ Check("cell of a world position, bounded", E.b = bnd)
       /\ Check("cell of a local position", E.lu = cell /\ E.lb = bnd)
       /\ Check("inside", E["in"] = in /\ E.incell = in)
       /\ Check("corner of the cell", E.cw = <<ox + cell[1] * res, oy + cell[2] * res>>)
       /\ Check("corner of the cell, local", E.cl = <<ox - px + cell[1] * res, oy - py + cell[2] * res>>)
       /\ Check("cell of the middle of the cell", E.again = cell)
    /\ UNCHANGED <<res, px, py, w, h, rows, cols>>
TraceInit == l = 1 /\ res = 1 /\ px = 0 /\ py = 0 /\ w = 0 /\ h = 0 /\ rows = 0 /\ cols = 0
TraceNext == Case \/ Position \/ Size \/ Query
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
