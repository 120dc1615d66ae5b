----------------------------- MODULE PyGvdTrace -----------------------------
(* The Voronoi diagram as the Python module shows it: distances, costs, and    *)
(* the image.  The image has one column per row of the map and shows the last  *)
(* column of the map at its top.                                               *)
EXTENDS GridMath, Common
VARIABLES l, rows, cols, res, last
vars == <<l, rows, cols, res, last>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Case == Is("case") /\ rows' = E.rows /\ cols' = E.cols /\ res' = E.res /\ last' = <<>>
N == rows * cols
NearOK(c, S, d) == IF S = {} THEN d = -1 ELSE d = Nearest2(c, S, cols)
Mm(d) == (ISqrt(d * 1000000) * res) \div 10
Field(o, v) == LET do == Mm(o) dv == Mm(v)
                   t1 == 200000000 \div (20000 + do)
                   t2 == (dv * 10000) \div (do + dv)
                   q == (30000 - do) \div 3 IN
               (((t1 * t2) \div 10000) * ((q * q) \div 10000)) \div 10000
CostOK(c) == LET o == E.od[c + 1] v == E.vd[c + 1] k == E.cost[c + 1] IN
             IF v = -1 \/ o = -1 \/ Mm(o) > 30010 THEN k = 0
             ELSE IF Mm(o) >= 29990 THEN Abs(k) <= 10
             ELSE Abs(k - Field(o, v)) <= 10
Occ(e) == { c \in 0..(N - 1) : e.vals[c + 1] >= 0 }
Edges(e) == { c \in 0..(N - 1) : e.vd[c + 1] = 0 }
Gvd == /\ Is("gvd")
       /\ LET occ == TLCEval(Occ(E)) edges == TLCEval(Edges(E)) IN
          /\ Check("nearest obstacle", \A c \in 0..(N - 1) : NearOK(c, occ, E.od[c + 1]))
          /\ Check("nearest edge", \A c \in 0..(N - 1) : NearOK(c, edges, E.vd[c + 1]))
          /\ Check("edges are free", edges \cap occ = {} \/ occ = {})
          /\ Check("path cost", \A c \in 0..(N - 1) : CostOK(c))
       /\ last' = E /\ UNCHANGED <<rows, cols, res>>
At == /\ Is("at")
      /\ LET in == E.r >= 0 /\ E.r < rows /\ E.c >= 0 /\ E.c < cols IN
         Check("refused iff outside the map", \A k \in 1..3 : (E.ok[k] = 1) = in)
      /\ UNCHANGED <<rows, cols, res, last>>
Pixel(r, c) == (cols - 1 - c) * rows + r + 1
Image == /\ Is("image")
         /\ Check("image size", E.head /\ E.size = 3 * N)
         /\ Check("obstacles are black", \A c \in Occ(last) : E.black[Pixel(Row(c, cols), Col(c, cols))] = 1)
         /\ UNCHANGED <<rows, cols, res, last>>
TraceInit == l = 1 /\ rows = 0 /\ cols = 0 /\ res = 1 /\ last = <<>>
TraceNext == Case \/ Gvd \/ At \/ Image
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
