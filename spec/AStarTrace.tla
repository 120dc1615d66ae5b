----------------------------- MODULE AStarTrace -----------------------------
(* Recorded runs of AStar against module AStar: every expansion must be a    *)
(* best-first step and every result the optimum.                            *)
EXTENDS AStar, Common
VARIABLES l, res
vars == <<avars, l, res>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
NoRes == <<>>

Case == /\ Is("case") /\ res' = NoRes
        /\ n' = 0 /\ edges' = <<>> /\ start' = 0 /\ goal' = 0 /\ h' = <<>> /\ tree' = FALSE
        /\ open' = <<>> /\ closed' = {} /\ phase' = "idle"
GraphEv == /\ Is("graph") /\ n' = E.n /\ edges' = E.edges
           /\ phase' = "idle" /\ UNCHANGED <<start, goal, h, tree, open, closed, res>>
Search == /\ Is("search")
          /\ phase # "search"
          /\ AStart(E.start, E.goal, E.h, E.tree)
          /\ UNCHANGED res
Expand == /\ Is("expand")
          /\ Check("expanded state is a best pending state and not the goal",
                   E.s \in 1..n /\ phase = "search" /\ E.s # goal /\ IsBest(E.s))
          /\ AExpand(E.s)
          /\ UNCHANGED res

Keys(p) == [i \in DOMAIN p |-> p[i][1]]
\* the path is a walk along the reported edges, from the start to the goal
Walk(p, a) ==
    /\ Len(p) = Len(a) + 1
    /\ p[1][1] = start /\ p[Len(p)][1] = goal
    /\ p[1][2] = -1
    /\ \A i \in DOMAIN a :
         /\ a[i] \in DOMAIN edges
         /\ edges[a[i]][1] = p[i][1] /\ edges[a[i]][2] = p[i + 1][1]
         /\ p[i + 1][2] = a[i]
RECURSIVE SumActs(_, _)
SumActs(a, i) == IF i > Len(a) THEN 0 ELSE edges[a[i]][3] + SumActs(a, i + 1)

Success == /\ Is("result") /\ E.ok
           /\ Check("the goal is a best pending state", phase = "search" /\ IsBest(goal))
           /\ Check("cost is optimal", E.cost = Dist(n, edges, start)[goal])
           /\ ASucceed(E.cost)
           /\ Check("walk", Walk(E.path, E.acts))
           /\ Check("cost of the walk", SumActs(E.acts, 1) = E.cost)
           /\ Check("explored", tree \/ Range(E.exf) = closed \cup {start})
           /\ res' = <<E.path, E.acts, E.cost>>
Failure == /\ Is("result") /\ ~E.ok
           /\ Check("unreachable", Dist(n, edges, start)[goal] = AInf)
           /\ Check("exhausted", phase = "search" /\ Pending = {})
           /\ AFail
           /\ Check("empty result", E.path = <<>> /\ E.acts = <<>> /\ E.cost = -1)
           /\ res' = <<E.path, E.acts, E.cost>>
Again == /\ Is("again") /\ Check("same result", res = <<E.path, E.acts, E.cost>>)
         /\ UNCHANGED <<avars, res>>
Null == /\ Is("null") /\ Check("refused", ~E.r) /\ UNCHANGED <<avars, res>>
Refuse == Is("refuse") /\ Check("search after a failed initialisation", ~E.ok) /\ UNCHANGED <<avars, res>>
NoInit == /\ Is("noinit")
          /\ Check("uninitialised search fails", ~E.ok /\ E.path = <<>> /\ E.acts = <<>> /\ E.cost = -1)
          /\ UNCHANGED <<avars, res>>

TraceInit == /\ l = 1 /\ res = NoRes
             /\ n = 0 /\ edges = <<>> /\ start = 0 /\ goal = 0 /\ h = <<>> /\ tree = FALSE
             /\ open = <<>> /\ closed = {} /\ phase = "idle"
TraceNext == Case \/ GraphEv \/ Search \/ Expand \/ Success \/ Failure \/ Again \/ Null \/ NoInit \/ Refuse
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
