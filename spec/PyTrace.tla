------------------------------- MODULE PyTrace -------------------------------
(* What the Python module adds to the planners: parameters and enumerations     *)
(* arrive unchanged, classes implemented in Python are called as given, and     *)
(* Reeds-Shepp connections and Hybrid A* searches behave as those in C++.       *)
(* Lengths in 0.1 mm, angles in 0.1 mrad.                                       *)
EXTENDS Common
VARIABLES l, P
vars == <<l, P>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TwoPi == 62832
Angle(a, b) == Abs(((a - b + 31416 + 4 * TwoPi) % TwoPi) - 31416)
Close(p, q, d, a) == Abs(p[1] - q[1]) <= d /\ Abs(p[2] - q[2]) <= d /\ Angle(p[3], q[3]) <= a
Case == Is("case") /\ P' = E
\* ------------------------------------------------------------- parameters
Values == [Status |-> <<0, -1>>, Steer |-> <<0, 1, 2>>, Direction |-> <<0, 1, 2>>, SmoothingStatus |-> <<0, 1, 2, -1, -2>>]
Enum == Is("enum") /\ Check("enumeration", E.got = Values[E.name]) /\ UNCHANGED P
Params == Is("params") /\ Check("parameters are kept", E.got = E.want) /\ UNCHANGED P
\* wheelbase, radius, switching cost, multipliers, motions, resolutions
Defaults == Is("defaults") /\ Check("default parameters", E.a = E.b /\ E.a = <<26000, 20000, 0, 10000, 10000, 10000, 5, 10000, 872>>) /\ UNCHANGED P
Same == Is("same") /\ Check("same object", E.ok) /\ UNCHANGED P
Call == Is("call") /\ Check("called as given", E.seen = E.args) /\ Check("result of the override", E.got = E.want) /\ UNCHANGED P
\* ------------------------------------------------------------ Reeds-Shepp
\* costs in eighths
CostOf(d) == (d[1] * E.fw + d[2] * E.rv) + E.sw * 10000 * d[3]
Rs == /\ Is("rs")
      /\ Check("starts at the start", Close(E.init, E.s, 3, 3) /\ Close(E.at0, E.s, 3, 3))
      /\ Check("ends at the goal", Close(E.fin, E.g, 12, 12) /\ Close(E.at1, E.g, 12, 12))
      /\ Check("turning radius", E.radius = E.R /\ E.curv <= 10050 /\ E.dev <= 3)
      /\ Check("length is driven", Abs(E.len - E.drive[1] - E.drive[2]) <= 4)
      /\ Check("not more costly than the candidate", CostOf(E.drive) <= CostOf(E.cand) + 160 + CostOf(E.cand) \div 5000)
      /\ UNCHANGED P
\* -------------------------------------------------------------- Hybrid A*
DriveCost(d) == P.fw * d[1] + P.rv * d[2] + P.sw * 10000 * d[3]
RECURSIVE Sum(_, _, _)
\* cost of segments i.. when the last direction was d
Sum(segs, i, d) == IF i > Len(segs) THEN 0
                   ELSE LET s == segs[i].drive IN
                        DriveCost(s) + (IF d # 0 /\ s[4] # 0 /\ d # s[4] THEN P.sw * 10000 ELSE 0) + Sum(segs, i + 1, IF s[5] = 0 THEN d ELSE s[5])
From(s) == SubSeq(s.ends, 1, 3)
To(s) == SubSeq(s.ends, 4, 6)
Init0 == /\ P.init /\ P.iters /\ Abs(P.curv - 10000) <= 2
Search ==
    /\ Is("search")
    /\ Check("initialised", Init0)
    /\ Check("status", E.ok = E.graph /\ E.known)
    /\ Check("explored paths hang in the tree", E.lost = 0 /\ E.intree)
    /\ IF ~E.ok THEN Check("nothing on failure", E.path = <<>> /\ E.segs = <<>> /\ E.cost = -1)
       ELSE LET n == Len(E.segs) p == E.path IN
         /\ Check("the path leads from the start to the goal",
                  IF n = 0 THEN Close(E.s, E.t, 1, 1)
                  ELSE /\ Close(From(E.segs[1]), E.s, 1, 1) /\ Close(To(E.segs[n]), E.t, 12, 4)
                       /\ \A i \in 1..(n - 1) : Close(To(E.segs[i]), From(E.segs[i + 1]), 1, 1))
         /\ Check("cost of the path", Abs(4 * E.cost - Sum(E.segs, 1, 0)) <= 100 + E.cost \div 1000)
         /\ Check("sampled path", Len(p) > 0 /\ Close(p[1], E.s, 1, 1) /\ Close(p[Len(p)], E.t, 12, 4))
         /\ Check("smoothed path is valid", E.smooth >= 0 => \A i \in DOMAIN E.valid : E.valid[i] = 1)
         /\ Check("smoothed path", E.smooth >= 0 => E.same)
         /\ Check("no iteration, no smoothing", (P.plain /\ E.smooth >= 0) => E.smooth \in {0, 2})
    /\ UNCHANGED P
TraceInit == l = 1 /\ P = <<>>
TraceNext == Case \/ Enum \/ Params \/ Defaults \/ Same \/ Call \/ Rs \/ Search
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
