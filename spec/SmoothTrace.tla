----------------------------- MODULE SmoothTrace -----------------------------
(* Runs of the smoother: each iterate is the one before it less the learning     *)
(* rate times the gradient of the objective.  Positions 1e-5 m, lengths 1e-4 m,   *)
(* directions 1e-3, angles 1e-4 rad, weights 1/100, rate 1/1000.  The surroundings *)
(* (nearest obstacle and Voronoi edge) are those of the grid of the same map.      *)
EXTENDS Smooth, Common, SequencesExt
VARIABLES l, m, cur, orig, steps, st
vars == <<l, m, cur, orig, steps, st>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
X == 1
Y == 2
Failed(s) == s < 0
Early == /\ Is("early")
         /\ Check("uninitialised", Failed(E.st) /\ ~E.ok /\ Failed(E.st2))
         /\ UNCHANGED <<m, cur, orig, steps, st>>
Case == /\ Is("case") /\ m' = E /\ Check("initialised", E.init) /\ steps' = <<>> /\ UNCHANGED <<cur, orig, st>>
Start == Is("start") /\ orig' = E /\ cur' = E /\ UNCHANGED <<m, steps, st>>
Cusps == Range(m.cusps)
F == Free(m.n, Cusps)
M == Movable(m.n, Cusps)

\* 0-based access
Pos(S, i, c) == S.pos[i + 1][c]
Seg(S, i) == S.seg[i + 1]
Obs(S, i) == S.obs[i + 1]
Vor(S, i) == S.vor[i + 1]
Mul(a, b, d) == IF a * b >= 0 THEN (Abs(a * b) + d \div 2) \div d ELSE -((Abs(a * b) + d \div 2) \div d)

\* gradients, in 1e-5
PathTerm(S, i, c) == Mul(m.wp, Pos(S, i, c) - Pos(orig, i, c), 100)
SmoothTerm(S, i, c) ==
    LET a == Pos(S, i - 1, c) - Pos(S, i - 2, c)  b == Pos(S, i, c) - Pos(S, i - 1, c)
        d == Pos(S, i + 1, c) - Pos(S, i, c)      f == Pos(S, i + 2, c) - Pos(S, i + 1, c) IN
    Mul(m.ws, (f - d) - 2 * (d - b) + (b - a), 100)
CollisionTerm(S, i, c) ==
    LET o == Obs(S, i) IN
    IF o[1] = 0 \/ o[2] >= m.r THEN 0 ELSE Mul(Mul(o[2] - m.r, o[2 + c], 100), m.wc, 100)
\* the Voronoi potential alpha/(alpha+dO) * dV/(dO+dV) * (dO-dMax)^2/dMax^2
VoronoiTerm(S, i, c) ==
    LET o == Obs(S, i) v == Vor(S, i) IN
    IF o[1] = 0 \/ v[1] = 0 \/ o[2] >= m.dmax \/ v[2] = 0 \/ m.wv = 0 THEN 0 ELSE
    LET s == o[2] + v[2]
        q == m.dmax - o[2]
        A == Mul(m.alpha, 10000, m.alpha + o[2])
        qr == Mul(q, 5000, m.dmax \div 2)
        f == Mul(o[2], 10000, s)
        pvdv == Mul(Mul(A, Mul(qr, qr, 10000), 10000), Mul(f, 10000, s), 10000)
        T == Mul(q, 500, (m.alpha + o[2]) \div 2) + Mul(q, 1000, s) + 2000
        M3 == Mul(Mul(A, Mul(v[2], 10000, s), 10000), qr, 100000)
        pvdo == -(Mul(M3, T, 100) \div (m.dmax \div 10000)) IN
    Mul(m.wv, Mul(pvdo, o[2 + c], 1000) + Mul(pvdv, v[2 + c], 1000), 10)
Kappa(S, i) == Mul(Abs(Seg(S, i)[4]), 10000, Seg(S, i)[1])
\* derivatives of the turn over the length at pose i, by the pose before and after it, in 1e-3
Perp(u, c) == IF c = X THEN -u[3] ELSE u[2]
Sgn(v) == IF v < 0 THEN -1 ELSE 1
DBefore(S, i, c) == LET u == Seg(S, i) L == u[1] IN
    Mul(Mul(Sgn(u[4]) * Perp(u, c) + Mul(Abs(u[4]), u[1 + c], 10000), 10000, L), 10000, L)
DAfter(S, i, c) == LET u == Seg(S, i) w == Seg(S, i + 1) IN
    Mul(Mul(Sgn(u[4]) * Perp(w, c), 10000, u[1]), 10000, w[1])
\* curvature of pose i, seen from pose j
CurvatureTerm(S, i, j, c) ==
    IF i \notin F \/ Kappa(S, i) <= m.kmax THEN 0 ELSE
    LET d == IF j = i - 1 THEN DBefore(S, i, c) ELSE IF j = i + 1 THEN DAfter(S, i, c)
             ELSE -(DBefore(S, i, c) + DAfter(S, i, c)) IN
    Mul(Mul(Kappa(S, i) - m.kmax, d, 100), m.wk, 100)
Terms(S, i, c) ==
    (IF i \in F THEN << PathTerm(S, i, c), SmoothTerm(S, i, c), CollisionTerm(S, i, c), VoronoiTerm(S, i, c) >> ELSE <<>>)
    \o << CurvatureTerm(S, i - 1, i, c), CurvatureTerm(S, i, i, c), CurvatureTerm(S, i + 1, i, c) >>
Total(t) == FoldSeq(LAMBDA a, b : a + b, 0, t)
\* what the rounding of the terms is measured against: the sizes of both coordinates
Size(t) == FoldSeq(LAMBDA a, b : Abs(a) + b, 0, t)
CurvatureSize(S, i) == IF i \notin F \/ Kappa(S, i) <= m.kmax THEN 0 ELSE
    LET d == FoldSeq(LAMBDA a, b : a + b, 0, [c \in {X, Y} |-> Abs(DBefore(S, i, c)) + Abs(DAfter(S, i, c))]) IN
    Mul(Mul(Kappa(S, i) - m.kmax, d, 100), m.wk, 100)
SizeAt(S, i) == Size(Terms(S, i, X)) + Size(Terms(S, i, Y)) + CurvatureSize(S, i - 1) + CurvatureSize(S, i) + CurvatureSize(S, i + 1)
\* the arithmetic above is exact enough (and does not overflow) only in this range; beyond it nothing is said
Near(S, i) == i >= 0 /\ i < m.n /\ \A c \in {X, Y} : Abs(Pos(S, i, c)) < 2000000
Tame(S, i) ==
    /\ \A j \in (i - 2)..(i + 2) : (j >= 0 /\ j < m.n) => Near(S, j)
    /\ \A j \in (i - 1)..(i + 1) : j \in F =>
         /\ Seg(S, j)[1] \in 1500..40000 /\ Seg(S, j + 1)[1] \in 1500..40000
         /\ Abs(Seg(S, j)[4]) <= 30000
         /\ Kappa(S, j) - m.kmax <= 80000
         /\ \A c \in {X, Y} : Abs(DBefore(S, j, c)) + Abs(DAfter(S, j, c)) <= 12000
         /\ (Kappa(S, j) > m.kmax => Abs(Seg(S, j)[4]) >= 200)
    /\ (Obs(S, i)[1] = 1 => Obs(S, i)[2] \in 500..200000)
    /\ (Vor(S, i)[1] = 1 => (Vor(S, i)[2] <= 200000 /\ (m.wv = 0 \/ Vor(S, i)[2] >= 20)))
Stepped(S, i) ==
    LET tol == 4 + ((SizeAt(S, i) \div 100) * m.lr) \div 2000 IN
    \A c \in {X, Y} : Abs((Pos(S, i, c) - Pos(E, i, c)) - Mul(m.lr, Total(Terms(S, i, c)), 1000)) <= tol
Same(S, i) == S.pos[i + 1] = E.pos[i + 1]
Heading(S, i) == S.pos[i + 1][3] = E.pos[i + 1][3]
Indices == 0..(m.n - 1)
Ran == /\ Is("ran")
       /\ Check("unsafe", ~E.valid <=> Failed(E.st))
       /\ Check("status", Failed(E.st) \/ E.st = (IF m.n < 5 THEN PathSize ELSE MaxIteration))
       /\ UNCHANGED <<m, cur, orig, steps, st>>
Iter == /\ Is("iter")
        /\ Check("size", Len(E.pos) = m.n)
        /\ Check("fixed", \A i \in Indices \ M : Same(orig, i))
        /\ Check("heading", \A i \in Indices : Heading(orig, i))
        /\ IF E.k = 0 \/ m.n < 5 THEN Check("start", \A i \in Indices : Same(orig, i)) /\ UNCHANGED steps
           ELSE /\ \A i \in M : Tame(cur, i) => Check("step", Stepped(cur, i))
                /\ steps' = Append(steps, E.step)
        /\ cur' = E /\ UNCHANGED <<m, orig, st>>
\* the step of an iteration against the tolerance, leaving out what rounding decides
Stop == /\ Is("stop")
        /\ Check("unsafe", ~E.valid <=> Failed(E.st))
        /\ Check("size", E.len = m.n)
        /\ IF m.n < 5 THEN Check("short", Failed(E.st) \/ E.st = PathSize)
           ELSE LET Low(s) == s < E.tol - 5 - E.tol \div 100
                    High(s) == s < E.tol + 5 + E.tol \div 100
                    a == Ends(steps, E.max, Low) b == Ends(steps, E.max, High) IN
                IF a # b THEN TRUE
                ELSE /\ Check("stop", a[1] \in Range(E.same))
                     /\ Check("status", Failed(E.st) \/ E.st = a[2])
        /\ UNCHANGED <<m, cur, orig, steps, st>>
TraceInit == l = 1 /\ m = <<>> /\ cur = <<>> /\ orig = <<>> /\ steps = <<>> /\ st = 0
TraceNext == Early \/ Case \/ Start \/ Ran \/ Iter \/ Stop
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
