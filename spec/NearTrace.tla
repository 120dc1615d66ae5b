------------------------------ MODULE NearTrace ------------------------------
(* Histories of the search tree; node i was created at pts[i] (exact, 1/8 m).  *)
EXTENDS Hierarchy, Common
VARIABLES l, par, pts
vars == <<l, par, pts>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Same == UNCHANGED <<par, pts>>
Nearest(q) == LET d == TLCEval([i \in DOMAIN pts |-> Sq(pts[i], q)]) m == MinSet({ d[i] : i \in DOMAIN pts }) IN { i \in DOMAIN pts : d[i] = m }
Case == Is("case") /\ par' = <<>> /\ pts' = <<>>
Clear == Is("clear") /\ Check("empty after clear", E.size = 0) /\ Check("nodes deleted by clearing", E.live = 0) /\ par' = <<>> /\ pts' = <<>>
Root == /\ Is("root") /\ par' = <<0>> /\ pts' = <<E.at>>
        /\ Check("root node", E.size = 1 /\ E.in /\ E.top /\ E.state = E.at)
At(q) == { i \in DOMAIN pts : pts[i] = q }
Extend ==
    /\ Is("extend")
    /\ IF At(E.at) # {} THEN
          /\ Check("a state is in the tree once", E.node \in At(E.at) /\ ~E.fresh /\ E.size = Len(pts) /\ E.state = E.at /\ E.in) /\ Same
       ELSE IF pts = <<>> THEN Check("an empty tree cannot be extended", E.node = 0 /\ E.size = 0) /\ Same
       ELSE /\ Check("new node", E.fresh /\ E.node = Len(pts) + 1 /\ E.size = Len(pts) + 1 /\ E.state = E.at /\ E.in)
            /\ Check("parent of the new node", IF E.src # 0 THEN E.par = E.src ELSE E.par \in Nearest(E.at))
            /\ pts' = Append(pts, E.at) /\ par' = Append(par, E.par)
Near == Is("near") /\ Check("nearest node", IF pts = <<>> THEN E.node = 0 ELSE E.node \in Nearest(E.at)) /\ Same
KNear == /\ Is("knear")
         /\ LET s == Range(E.nodes) IN
            /\ Check("number of nearest nodes", Len(E.nodes) = Min2(E.k, Len(pts)) /\ Cardinality(s) = Len(E.nodes) /\ s \subseteq DOMAIN pts)
            /\ Check("nearest nodes", \A i \in s : \A j \in (DOMAIN pts) \ s : Sq(pts[i], E.at) <= Sq(pts[j], E.at))
         /\ Same
Move == Is("tmove") /\ par' = Reparent(par, E.c, E.p) /\ UNCHANGED pts
Foreign == Is("foreign") /\ Check("foreign node", ~E.in) /\ Same
Tree == /\ Is("tree")
        /\ Check("number of nodes", E.size = Len(pts))
        /\ Check("the nodes of the tree are all that is kept", E.live = Len(pts))
        /\ Check("parents", E.par = par)
        /\ Check("membership", \A i \in DOMAIN pts : E.in[i] = 1)
        /\ Same
TraceInit == l = 1 /\ par = <<>> /\ pts = <<>>
TraceNext == Case \/ Clear \/ Root \/ Extend \/ Near \/ KNear \/ Move \/ Foreign \/ Tree
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
