---------------------------- MODULE RasterTrace ----------------------------
(* Obstacle outlines: the vertices are the local vertices rotated by the      *)
(* heading and moved to the position of the obstacle, and the cells are the   *)
(* closed outline through the cells of the vertices, clipped to the map.      *)
(* Lengths are in 1/100 of a cell, relative to the corner of the grid.        *)
EXTENDS Raster, Common
VARIABLES l, rows, cols
vars == <<l, rows, cols>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Case == Is("case") /\ rows' = E.rows /\ cols' = E.cols
In(c) == c[1] >= 0 /\ c[1] < rows /\ c[2] >= 0 /\ c[2] < cols
Vert(i) == LET v == E.verts[i] IN
           << E.px + (E.cos * v[1] - E.sin * v[2]) \div 10000, E.py + (E.sin * v[1] + E.cos * v[2]) \div 10000 >>
VCell(i) == LET p == Vert(i) IN <<p[1] \div 100, p[2] \div 100>>
RECURSIVE Before(_, _)
Before(p, i) == IF i <= 1 THEN 0 ELSE p[i - 1] + Before(p, i - 1)
\* the edges of all parts, as pairs of vertex numbers
Edges == UNION { { <<Before(E.parts, k) + j, Before(E.parts, k) + (j % E.parts[k]) + 1>> : j \in 1..E.parts[k] } : k \in DOMAIN E.parts }
Cells == { <<E.cells[i][1], E.cells[i][2]>> : i \in DOMAIN E.cells }
Shape == /\ Is("shape")
         /\ Check("number of vertices", Len(E.world) = Len(E.verts))
         /\ Check("vertices", \A i \in DOMAIN E.verts :
                      Abs(E.world[i][1] - Vert(i)[1]) <= 2 /\ Abs(E.world[i][2] - Vert(i)[2]) <= 2)
         /\ LET cs == TLCEval(Cells)
                es == TLCEval({ <<VCell(e[1]), VCell(e[2])>> : e \in Edges })
                band == TLCEval(UNION { Band(e[1], e[2]) : e \in es }) IN
            /\ Check("cells inside the map", \A c \in cs : In(c))
            /\ Check("cells on the outline", cs \subseteq band)
            /\ Check("outline without gap", \A e \in es : \A m \in Offsets(e[1], e[2]) :
                        \E c \in OnLine(e[1], e[2], m) : c \in cs \/ ~In(c))
         /\ UNCHANGED <<rows, cols>>
TraceInit == l = 1 /\ rows = 0 /\ cols = 0
TraceNext == Case \/ Shape
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
