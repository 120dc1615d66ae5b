----------------------------- MODULE RSOptTrace -----------------------------
(* Reeds-Shepp words, shortest distance and least cost.  `dist` is normalised  *)
(* by the turning radius; candidates are instances of the 48 words, so their   *)
(* length (cost) bounds the answer from above; quarter-turn lattice motions    *)
(* give an independent bound.                                                  *)
EXTENDS RSWords, RSLattice, Common
VARIABLES l, D
vars == <<l, D>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1 /\ UNCHANGED D
Case == Is("case")
CloseMotions(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i][1] = b[i][1] /\ a[i][2] = b[i][2] /\ Abs(a[i][3] - b[i][3]) <= 2
\* the motions are an instance of the word, whatever its parameters
InstanceOf(ms, w) ==
    LET ref == Word(w, 0, 0, 0)
        curves == { i \in DOMAIN ref : ref[i][3] = Quarter } IN
    /\ Shape(ms) = Shape(ref)
    /\ \A i \in curves : Abs(ms[i][3] - Quarter) <= 1
    /\ (w \div 4 \in {5, 6} => Abs(ms[2][3] - ms[3][3]) <= 1)
    /\ \A i \in DOMAIN ms : ms[i][3] >= 0
Cand ==
    /\ Is("cand")
    /\ Check("candidate", CloseMotions(E.mot, Word(E.w, E.p[1], E.p[2], E.p[3])))
    /\ Check("not longer than the candidate", E.dist <= Length(E.mot) + 6)
    /\ Check("not shorter than the straight line", E.dist + 4 >= E.euclid)
    /\ Check("not shorter than the turn", E.dist + 4 >= E.turn)
    /\ Check("as long backwards", Abs(E.dist - E.back) <= 4)
    /\ Check("independent of the scale", Abs(E.dist - E.scaled) <= 4)
    /\ Check("triangle inequality", E.dist <= E.leg1 + E.leg2 + 8)
    /\ Check("word", E.valid /\ E.word \in 0..47 /\ E.word2 \in 0..47)
    /\ Check("path is an instance of the word", InstanceOf(E.path, E.word) /\ E.word = E.word2)
    /\ Check("path has the parameters of the distance", CloseMotions(E.path, Word(E.word, E.wp[1], E.wp[2], E.wp[3])))
    /\ Check("path has the shortest distance", Abs(Length(E.path) - E.dist) <= 6 /\ Abs(E.plen - E.dist) <= 2)
Tiny(ms) == \E i \in DOMAIN ms : ms[i][3] <= 3
Cost ==
    /\ Is("cost")
    /\ Check("candidate", CloseMotions(E.mot, Word(E.w, E.p[1], E.p[2], E.p[3])))
    /\ LET c == TLCEval(Cost8(E.mot, E.cl, E.rv, E.fw, E.sw))
           p == TLCEval(Cost8(E.path, E.pl, E.rv, E.fw, E.sw)) IN
       /\ Check("not more costly than the candidate", E.cost * 8 <= c + 320)
       /\ Check("cost of the path", Tiny(E.path) \/ Abs(E.cost * 8 - p) <= 320)
       /\ Check("same cost for the path object", Abs(E.cost - E.pcost) <= 2)
       /\ Check("not more costly than the shortest path", E.cost <= E.scost + 10)
    /\ Check("path is an instance of the word", E.word \in 0..47 /\ InstanceOf(E.path, E.word))
Lattice ==
    /\ Is("lattice")
    /\ Check("not longer than a lattice motion", \A i \in DOMAIN E.d : E.d[i][3] <= D[<<E.x, E.d[i][1], E.d[i][2]>>] + 6)
    /\ Check("not shorter than the straight line or the turn", \A i \in DOMAIN E.d :
          LET d == E.d[i][3] \div 100 y == E.d[i][1] IN
          /\ (d + 1) * (d + 1) >= 10000 * (E.x * E.x + y * y)
          /\ E.d[i][3] + 4 >= (IF E.d[i][2] = 3 THEN 1 ELSE E.d[i][2]) * Quarter)
TraceInit == l = 1 /\ D = LatticeDist
TraceNext == Case \/ Cand \/ Cost \/ Lattice
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
