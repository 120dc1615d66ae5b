---------------------------- MODULE VoronoiTrace ----------------------------
(* The Voronoi diagram and the potential field derived from it.  `od`, `on`:   *)
(* squared distance to and cell of the nearest obstacle; `vd`, `vn`: the same   *)
(* for the nearest edge cell.                                                   *)
EXTENDS GridMath, Common
VARIABLES l, rows, cols, res, last
vars == <<l, rows, cols, res, last>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Case == Is("case") /\ rows' = E.rows /\ cols' = E.cols /\ res' = E.res /\ last' = <<>>
Exact == rows <= 12 /\ cols <= 12
Slack(b) == IF Exact THEN 0 ELSE (ISqrt(b) + 1) \div 2 + 1
N == rows * cols
NearOK(c, S, d, n) == IF S = {} THEN d = -1 /\ n = -1
                      ELSE LET b == Nearest2(c, S, cols) IN n \in S /\ d = D2(c, n, cols) /\ d >= b /\ d - b <= Slack(b)
Val(c) == E.vals[c + 1]
On(c) == E.on[c + 1]
Od(c) == E.od[c + 1]
Touching(a, b) == Abs(Row(a, cols) - Row(b, cols)) <= 1 /\ Abs(Col(a, cols) - Col(b, cols)) <= 1
\* s is (at least as much as its neighbour n) between two different obstacles
Between(s, n) ==
    /\ Val(On(s)) # Val(On(n)) /\ (Od(s) > 1 \/ Od(n) > 1) /\ ~Touching(On(s), On(n))
    /\ LET ss == D2(s, On(n), cols) - Od(s) ns == D2(n, On(s), cols) - Od(n) IN ss >= 0 /\ ns >= 0 /\ ss <= ns
EdgeCells == { s \in 0..(N - 1) : \E n \in Neighbours(s, rows, cols) : Between(s, n) }
\* the potential field, scaled by 10000; distances in mm
Mm(d) == (ISqrt(d * 1000000) * res) \div 10
Field(o, v) == LET do == Mm(o) dv == Mm(v)
                   t1 == 200000000 \div (20000 + do)
                   t2 == (dv * 10000) \div (do + dv)
                   q == (30000 - do) \div 3 IN
               (((t1 * t2) \div 10000) * ((q * q) \div 10000)) \div 10000
CostOK(c) == LET o == E.od[c + 1] v == E.vd[c + 1] k == E.cost[c + 1] IN
             IF v = -1 \/ o = -1 \/ Mm(o) > 30010 THEN k = 0
             ELSE IF Mm(o) >= 29990 THEN Abs(k) <= 10
             ELSE Abs(k - Field(o, v)) <= 10
Gvd == /\ Is("gvd")
       /\ LET occ == TLCEval({ c \in 0..(N - 1) : Val(c) >= 0 })
              edges == TLCEval({ c \in 0..(N - 1) : E.vn[c + 1] = c }) IN
          /\ Check("nearest obstacle", \A c \in 0..(N - 1) : NearOK(c, occ, E.od[c + 1], E.on[c + 1]))
          /\ Check("nearest edge", \A c \in 0..(N - 1) : NearOK(c, edges, E.vd[c + 1], E.vn[c + 1]))
          /\ Check("edges", IF occ = {} THEN edges = {} ELSE edges = TLCEval(EdgeCells))
          /\ Check("path cost", \A c \in 0..(N - 1) : CostOK(c))
       /\ last' = E /\ UNCHANGED <<rows, cols, res>>
\* queries by world position agree with the cell and are refused outside the map
At == /\ Is("at")
      /\ LET in == E.r >= 0 /\ E.r < rows /\ E.c >= 0 /\ E.c < cols
             i == E.r * cols + E.c + 1 IN
         /\ Check("refused iff outside the map", \A k \in 1..5 : (E.ok[k] = 1) = in)
         /\ Check("same as the cell", in => E.o = last.on[i] /\ E.v = last.vn[i] /\ E.od = last.od[i]
                                             /\ E.vd = last.vd[i] /\ E.cost = last.cost[i])
      /\ UNCHANGED <<rows, cols, res, last>>
TraceInit == l = 1 /\ rows = 0 /\ cols = 0 /\ res = 1 /\ last = <<>>
TraceNext == Case \/ Gvd \/ At
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
