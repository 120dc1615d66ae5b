----------------------------- MODULE HybridTrace -----------------------------
(* Searches of Hybrid A*.  After each search the tree it has grown is recorded   *)
(* node by node (parents first), with the cells that the motions of a node lead   *)
(* to (kids), and the Reeds-Shepp path from the node to the goal (shot, can: it   *)
(* is valid and the goal is near).  Lengths in 0.1 mm, angles in 0.1 mrad, costs  *)
(* in quarters of 0.1 mm (the multipliers are in quarters).                       *)
EXTENDS Hybrid, Common
VARIABLES l, P, T, t, ok
\* P: parameters; T: the tree; t: the goal; ok: result of the search
vars == <<l, P, T, t, ok>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TwoPi == 62832
Angle(a, b) == Abs(((a - b + 31416 + 4 * TwoPi) % TwoPi) - 31416)
Close(p, q, d, a) == Abs(p[1] - q[1]) <= d /\ Abs(p[2] - q[2]) <= d /\ Angle(p[3], q[3]) <= a
Early == Is("early") /\ Check("a planner that is not initialised fails", ~E.ok /\ E.n = 0 /\ ~E.init) /\ UNCHANGED <<P, T, t, ok>>
Case == Is("case") /\ Check("initialised", E.init) /\ P' = E /\ T' = <<>> /\ UNCHANGED <<t, ok>>
Again == Is("again") /\ Check("initialised again", E.init) /\ T' = <<>> /\ UNCHANGED <<P, t, ok>>
Search == Is("search") /\ T' = <<>> /\ t' = E.t /\ UNCHANGED <<P, ok>>
DriveCost(d, vor) == P.fw * d[1] + P.rv * d[2] + P.sw * 10000 * d[3] + P.vo * vor
\* one more change of direction where the segments meet
Joint(last, d) == IF last # 0 /\ d[4] # 0 /\ last # d[4] THEN P.sw * 10000 ELSE 0
Root == /\ Is("node") /\ E.par = <<>>
        /\ T' = << [par |-> {}, at |-> E.at, cell |-> E.cell, g |-> 0, h |-> 4 * E.h, goal |-> E.goal, rs |-> FALSE, last |-> 0, kids |-> Range(E.kids),
                    shot |-> IF E.can THEN DriveCost(E.shot, E.svor) ELSE -1] >>
        /\ UNCHANGED <<P, t, ok>>
NodeE == /\ Is("node") /\ E.par # <<>> /\ Check("numbered in order", E.id = Len(T) + 1 /\ Range(E.par) \subseteq DOMAIN T)
         /\ Check("only validated paths are in the tree", E.valid)
         /\ Check("the turning radius is respected", E.rs \/ E.curv <= 10010)
         /\ Check("the path to the goal ends there", E.rs => E.goal /\ Close(E.at, t, 12, 3))
         /\ Check("motions have one direction", E.rs \/ E.drive[3] = 0)
         /\ LET p == T[CHOOSE i \in Range(E.par) : \A j \in Range(E.par) : T[i].g <= T[j].g]
                g == p.g + DriveCost(E.drive, E.vor) + Joint(p.last, E.drive) IN
            T' = Append(T, [par |-> Range(E.par), at |-> E.at, cell |-> E.cell, g |-> g, h |-> 4 * E.h, goal |-> E.goal, rs |-> E.rs,
                            last |-> IF E.drive[5] = 0 THEN p.last ELSE E.drive[5], kids |-> Range(E.kids),
                            shot |-> IF E.can THEN DriveCost(E.shot, E.svor) + Joint(IF E.drive[5] = 0 THEN p.last ELSE E.drive[5], E.shot) ELSE -1])
         /\ UNCHANGED <<P, t, ok>>
Result ==
    /\ Is("result")
    /\ LET n == IF E.path = <<>> THEN 1 ELSE E.path[Len(E.path)]
           cost == IF E.ok THEN T[n].g ELSE -1
           tol == 200 + cost \div 5000 IN
       /\ Check("every explored path hangs in the tree", E.lost = 0)
       /\ Check("status", E.ok = E.graph)
       /\ Check("success ends at the goal", E.ok => T[n].goal)
       /\ Check("path leads from the start along the tree", E.ok => \A i \in DOMAIN E.path : (IF i = 1 THEN 1 ELSE E.path[i - 1]) \in T[E.path[i]].par)
       /\ Check("cost of the path", IF E.ok THEN Abs(4 * E.cost - cost) <= tol ELSE E.cost = -1 /\ E.path = <<>>)
       /\ LET X == TLCEval(Expanded(T, E.ok, cost, tol)) IN
          /\ Check("every valid motion of an expanded state is followed", Closed(T, X))
          /\ Check("the goal is taken whenever it is in reach", ShotTaken(T, X, E.ok, cost, tol))
          /\ Check("one state per cell", \A i \in Live(T) : \A j \in DOMAIN T : (T[j].cell = T[i].cell /\ ~T[j].rs /\ ~T[i].rs) => Close(T[i].at, T[j].at, 11, 1))
       /\ Check("failure only when nothing reaches the goal", E.ok \/ \A i \in DOMAIN T : ~T[i].goal)
    /\ ok' = E.ok /\ UNCHANGED <<P, T, t>>
Final ==
    /\ Is("final")
    /\ Check("status", E.ok = ok)
    /\ Check("no path on failure", ok \/ E.path = <<>>)
    /\ Check("start and goal kept", E.t = t)
    /\ IF ok THEN
          LET p == E.path
              stop(j) == j = 1 \/ j = Len(p) \/ \E i \in DOMAIN E.cusp : Close(p[j], E.cusp[i], 2, 2) IN
          /\ Check("path starts at the start", Len(p) > 0 /\ Close(p[1], E.s, 1, 1))
          /\ Check("path ends at the goal", Close(p[Len(p)], t, 12, 3))
          \* the smoother is decided by C20; far moves may amplify rounding
          /\ Check("smoothed with the parameters given", E.moved > 5000 \/ (E.exp < 0) = (E.smooth < 0))
          /\ Check("result of smoothing", E.moved > 5000 \/ E.dev <= 50)
          /\ Check("smoothed path is valid", E.smooth >= 0 => \A i \in DOMAIN E.valid : E.valid[i] = 1)
          /\ Check("changes of direction are kept", \A i \in DOMAIN E.cusp : \E j \in DOMAIN p : Close(p[j], E.cusp[i], 2, 2))
          /\ Check("sampling of the path", (P.plain \/ E.smooth < 0) => \A i \in DOMAIN E.gap : 2 * E.gap[i] <= 3 * P.interp + 10)
          \* closer only where two changes of direction (or ends) are closer
          /\ Check("sampling of the path", (P.plain \/ E.smooth < 0) => \A i \in DOMAIN E.gap : 100 * E.gap[i] + 1000 >= 45 * P.interp \/ (stop(i) /\ stop(i + 1)))
          /\ Check("samples are on the path", (P.plain /\ E.len > 0) => \A i \in DOMAIN E.away : E.away[i] <= E.len \div 3000 + 3)
       ELSE TRUE
    /\ UNCHANGED <<P, T, t, ok>>
TraceInit == l = 1 /\ P = <<>> /\ T = <<>> /\ t = <<0, 0, 0>> /\ ok = FALSE
TraceNext == Early \/ Again \/ Case \/ Search \/ Root \/ NodeE \/ Result \/ Final
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
