---------------------------- MODULE BiAStarTrace ----------------------------
(* Recorded runs of BidirectionalAStar: both searches expand each reachable  *)
(* state at most once, and the result is the optimum of the whole graph.     *)
EXTENDS AStar, Common
VARIABLES l, res, side
vars == <<avars, l, res, side>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
\* side[1], side[2]: states expanded by the forward and the reverse search
Keep == UNCHANGED <<n, edges, start, goal, h, tree, open, closed, phase>>

Case == /\ Is("case") /\ res' = <<>> /\ side' = <<{}, {}>>
        /\ n' = 0 /\ edges' = <<>> /\ start' = 0 /\ goal' = 0 /\ h' = <<>> /\ tree' = FALSE
        /\ open' = <<>> /\ closed' = {} /\ phase' = "idle"
GraphEv == /\ Is("graph") /\ n' = E.n /\ edges' = E.edges
           /\ phase' = "idle" /\ UNCHANGED <<start, goal, h, tree, open, closed, res, side>>
Search == /\ Is("search") /\ AStart(E.start, E.goal, E.h, E.tree)
          /\ side' = <<{}, {}>> /\ UNCHANGED res
\* a state may be expanded if it is the origin of that search or next to an expanded one
Known(s, d) == \/ s = (IF d = 0 THEN start ELSE goal)
               \/ \E i \in DOMAIN edges :
                    IF d = 0 THEN edges[i][2] = s /\ edges[i][1] \in side[1]
                             ELSE edges[i][1] = s /\ edges[i][2] \in side[2]
Expand == /\ Is("expand") /\ phase = "search"
          /\ Check("expanded state was reached", E.s \in 1..n /\ Known(E.s, E.dir))
          /\ Check("expanded once", tree \/ E.s \notin side[E.dir + 1])
          /\ side' = [side EXCEPT ![E.dir + 1] = @ \cup {E.s}]
          /\ Keep /\ UNCHANGED res
Keys(p) == [i \in DOMAIN p |-> p[i][1]]
Success == /\ Is("result") /\ E.ok /\ phase = "search"
           /\ Check("cost is optimal", E.cost = Dist(n, edges, start)[goal])
           /\ Check("ends", Len(E.path) >= 1 /\ E.path[1][1] = start /\ E.path[Len(E.path)][1] = goal)
           /\ Check("cost of the walk", WalkCost(edges, Keys(E.path), 1) = E.cost)
           /\ Check("no state twice in a row", \A i \in 1..(Len(E.path) - 1) : E.path[i][1] # E.path[i + 1][1])
           /\ Check("explored", tree \/ (Range(E.exf) = side[1] \cup {start} /\ Range(E.exr) = side[2] \cup {goal}))
           /\ res' = <<E.path, E.cost>> /\ phase' = "done"
           /\ UNCHANGED <<n, edges, start, goal, h, tree, open, closed, side>>
Failure == /\ Is("result") /\ ~E.ok /\ phase = "search"
           /\ Check("unreachable", Dist(n, edges, start)[goal] = AInf)
           /\ Check("empty result", E.path = <<>> /\ E.cost = -1)
           /\ res' = <<E.path, E.cost>> /\ phase' = "done"
           /\ UNCHANGED <<n, edges, start, goal, h, tree, open, closed, side>>
Again == /\ Is("again") /\ Check("same result", res = <<E.path, E.cost>>)
         /\ UNCHANGED <<avars, res, side>>
Null == /\ Is("null") /\ Check("refused", ~E.r) /\ UNCHANGED <<avars, res, side>>
Parts == Is("parts") /\ Check("propagators and heuristics are those given", E.same) /\ UNCHANGED <<avars, res, side>>
\* the averaged pair, in half units: balanced, and zero at the end it searches for
Pair == /\ Is("pair")
        /\ Check("averaged heuristics",
             \A v \in DOMAIN E.af :
               /\ E.af[v] = (E.h[v] - E.hr[v]) + E.hr[E.goal]
               /\ E.ar[v] = (E.hr[v] - E.h[v]) + E.h[E.start])
        /\ UNCHANGED <<avars, res, side>>
Refuse == Is("refuse") /\ Check("search after a failed initialisation", ~E.ok) /\ UNCHANGED <<avars, res, side>>
NoInit == /\ Is("noinit")
          /\ Check("uninitialised search fails", ~E.ok /\ E.path = <<>> /\ E.cost = -1)
          /\ UNCHANGED <<avars, res, side>>
TraceInit == /\ l = 1 /\ res = <<>> /\ side = <<{}, {}>>
             /\ n = 0 /\ edges = <<>> /\ start = 0 /\ goal = 0 /\ h = <<>> /\ tree = FALSE
             /\ open = <<>> /\ closed = {} /\ phase = "idle"
TraceNext == Case \/ GraphEv \/ Search \/ Expand \/ Success \/ Failure \/ Again \/ Null \/ NoInit \/ Refuse \/ Pair \/ Parts
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
