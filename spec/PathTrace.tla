------------------------------ MODULE PathTrace ------------------------------
(* Path objects.  `pts` are the points of the path as first made, <<arc length, *)
(* x, y, heading>>; `cur` is the index of the point at which the path now ends; *)
(* `ps` its pieces.  Lengths in 0.1 mm, angles in 0.1 mrad.                      *)
EXTENDS PathPieces, Common
\* `blur`: lengths at which the path was cut at a joint of two pieces; rounding may
\* leave a remnant of the later piece there, so neither its direction nor a cusp
\* at that point is decided
VARIABLES l, kind, ends, pts, cur, ps, size, blur
vars == <<l, kind, ends, pts, cur, ps, size, blur>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TwoPi == 62832
Turn(d) == ((d + 31416 + 10 * TwoPi) % TwoPi) - 31416
SamePose(a, b) == Abs(a[1] - b[1]) <= 4 /\ Abs(a[2] - b[2]) <= 4 /\ Abs(Turn(a[3] - b[3])) <= 4
Pt(j) == <<pts[j][2], pts[j][3], pts[j][4]>>
S(j) == pts[j][1]
Case == Is("case") /\ kind' = E.kind /\ ends' = <<E.a, E.b>> /\ pts' = <<>> /\ cur' = 0 /\ ps' = <<>> /\ size' = 0 /\ blur' = {}
\* a single path: straight ones (kind 0 with heading, kind 3 without) interpolate linearly
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Lin(a, b, i, n) == a + ((b - a) * i) \div n
\* between two points on one piece of curvature k (1e-4 / m): the heading turns by
\* k times the distance, the position moves along the heading
Within(p, a, b) == { j \in DOMAIN p : TotalTo(p, j - 1) + 3 <= a /\ b <= TotalTo(p, j) - 3 }
OnCurve(e, i) ==
    LET a == e.pts[i - 1] b == e.pts[i] ds == b[1] - a[1] IN
    \A j \in Within(e.pieces, a[1], b[1]) :
        LET k == e.pieces[j][3] dir == e.pieces[j][2]
            dth == (dir * Sgn(k) * ((ds * ((Abs(k) + 5) \div 10)) \div 100)) \div 10 IN
        /\ Abs(Turn(b[4] - a[4] - dth)) <= 8 + ds \div 2000
        /\ (e.rear /\ Abs(dth) <= 10000) =>
              LET t == Abs(dth) \div 10
                  chord == ds - (ds * ((t * t) \div 2400)) \div 10000 IN
              /\ Abs(b[2] - a[2] - dir * ((chord * b[5]) \div 10000)) <= 8 + ds \div 1000
              /\ Abs(b[3] - a[3] - dir * ((chord * b[6]) \div 10000)) <= 8 + ds \div 1000
Make == /\ Is("make") /\ pts' = E.pts /\ cur' = Len(E.pts) /\ ps' = E.pieces
        /\ Check("straight path", kind \in {0, 3} =>
               \A i \in DOMAIN E.pts : LET n == Len(E.pts) - 1 IN
                  \A k \in (IF kind = 0 THEN 1..3 ELSE 1..2) : Abs(E.pts[i][k + 1] - Lin(ends[1][k], ends[2][k], i - 1, n)) <= 4)
        /\ Check("the curve at every length", kind \in {1, 2} => \A i \in 2..Len(E.pts) : OnCurve(E, i))
        /\ Check("length", Abs(E.pts[Len(E.pts)][1] - Total(E.pieces)) <= 6)
        /\ UNCHANGED <<kind, ends, size, blur>>
Push == /\ Is("push")
        /\ pts' = SubSeq(pts, 1, cur) \o E.pts
        /\ cur' = cur + Len(E.pts)
        /\ ps' = ps \o E.pieces
        /\ UNCHANGED <<kind, ends, size, blur>>
Tiny == \E i \in DOMAIN ps : ps[i][1] \in 1..8
\* what a path ending at point j must report
CuspsOK(e, p) ==   \* blur is that of the path before a cut
    LET tot == Total(p)
        must == { c \in Cusps(p) : c > 8 /\ c < tot - 8 }
        ratios == { e.cusps[i] : i \in DOMAIN e.cusps }
        at(q) == ((tot \div 10) * q) \div 1000 IN
    \/ Tiny \/ ~e.directed \/ tot <= 20
    \/ /\ \A c \in must : \E q \in ratios : Abs(at(q) - c) <= 20 + tot \div 2000
       /\ \A q \in ratios : q >= 9999 \/ \E c \in Cusps(p) \cup blur : Abs(at(q) - c) <= 20 + tot \div 2000
       /\ blur # {} \/ Cardinality({ q \in ratios : q < 9999 }) <= Cardinality(Cusps(p))
Reports(e, j, p) ==
    /\ Check("length of the path", Abs(e.len - S(j)) <= 6)
    /\ Check("initial state", SamePose(e.init, Pt(1)) /\ SamePose(e.at0, Pt(1)))
    /\ Check("final state", SamePose(e.fin, Pt(j)) /\ SamePose(e.at1, Pt(j)))
    /\ Check("cusp points", CuspsOK(e, p))
Sum == /\ Is("sum") /\ Check("nothing is cut", E.j = cur) /\ Reports(E, cur, ps) /\ UNCHANGED <<kind, ends, pts, cur, ps, size, blur>>
Trunc == /\ Is("trunc") /\ E.j <= cur
         /\ LET p == TLCEval(Cut(ps, S(E.j))) IN Reports(E, E.j, p) /\ ps' = p
         /\ cur' = E.j /\ UNCHANGED <<kind, ends, pts, size>>
         /\ blur' = { b \in blur : b <= S(E.j) } \cup (IF \E i \in 0..Len(ps) : Abs(TotalTo(ps, i) - S(E.j)) <= 12 THEN {S(E.j)} ELSE {})
Query == /\ Is("q") /\ E.j <= cur
         /\ Check("interpolated state", SamePose(E.p, Pt(E.j)))
         /\ Check("direction", LET ds == DirsNear(ps, S(E.j), 12) IN ds = {} \/ Total(ps) <= 20 \/ Tiny \/ (\E b \in blur : Abs(b - S(E.j)) <= 12) \/ E.dir \in ds \/ ~E.directed)
         /\ UNCHANGED <<kind, ends, pts, cur, ps, size, blur>>
\* the cost of what is left of a Reeds-Shepp path
RECURSIVE Weighted(_, _, _, _)
Weighted(p, i, f, r) == IF i = 0 THEN 0 ELSE (p[i][1] * (IF p[i][2] = 1 THEN f ELSE r)) \div 8 + Weighted(p, i - 1, f, r)
Changes(p) == Cardinality({ i \in 1..(Len(p) - 1) : p[i][2] # p[i + 1][2] })
Cost == /\ Is("cost")
        /\ Check("cost", LET w == TLCEval(Weighted(ps, Len(ps), E.fwd, E.rev))
                            most == Changes(ps) + (IF blur # {} THEN 1 ELSE 0)
                            least == Changes(SelectSeq(ps, LAMBDA x : x[1] > 8)) IN
              \/ ps = <<>>
              \/ \E n \in least..most : Abs(E.c - w - n * E.sw * 1250) <= 10 + w \div 50000 + 10 * Cardinality(blur))
        /\ UNCHANGED <<kind, ends, pts, cur, ps, size, blur>>
Many == /\ Is("many") /\ Check("states at several ratios", E.one = E.all) /\ UNCHANGED <<kind, ends, pts, cur, ps, size, blur>>
Steer == /\ Is("steer") /\ Check("steering angle", E.got = E.want) /\ UNCHANGED <<kind, ends, pts, cur, ps, size, blur>>
Size == /\ Is("size")
        /\ Check("number of segments", IF E.what = 1 THEN E.n = size + 1 ELSE E.n <= size)
        /\ size' = E.n /\ UNCHANGED <<kind, ends, pts, cur, ps, blur>>
Empty == /\ Is("empty") /\ Check("empty path", E.threw /\ E.len = 0 /\ E.size = 0 /\ E.dir = 0) /\ UNCHANGED <<kind, ends, pts, cur, ps, size, blur>>
TraceInit == l = 1 /\ kind = 0 /\ ends = <<>> /\ pts = <<>> /\ cur = 0 /\ ps = <<>> /\ size = 0 /\ blur = {}
TraceNext == Case \/ Make \/ Push \/ Sum \/ Trunc \/ Query \/ Cost \/ Many \/ Steer \/ Size \/ Empty
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
