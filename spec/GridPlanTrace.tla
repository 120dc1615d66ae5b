---------------------------- MODULE GridPlanTrace ----------------------------
EXTENDS GridPlan, Common
VARIABLE l
vars == <<gvars, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
C(a) == <<a[1], a[2]>>
Case == /\ Is("case") /\ Check("map size", E.rows = E.wr /\ E.cols = E.wc)
        /\ rows' = E.rows /\ cols' = E.cols /\ occ' = {} /\ straight' = 0 /\ diag' = 0 /\ price' = <<>>
Cost == /\ Is("cost") /\ straight' = E.straight /\ diag' = E.diag /\ price' = E.price
        /\ UNCHANGED <<rows, cols, occ>>
Occ == /\ Is("occ") /\ occ' = { C(E.cells[i]) : i \in DOMAIN E.cells }
       /\ UNCHANGED <<rows, cols, straight, diag, price>>
\* the propagator returns exactly the legal steps with their costs, each once
NextEv == /\ Is("next")
          /\ Check("neighbours", { <<C(E.nb[i]), E.nb[i][3]>> : i \in DOMAIN E.nb } = { <<d, StepCost(C(E.s), d)>> : d \in Steps(C(E.s)) })
          /\ Check("each neighbour once", Len(E.nb) = Cardinality(Steps(C(E.s))))
          /\ UNCHANGED gvars
P == [i \in DOMAIN E.path |-> C(E.path[i])]
Plan == /\ Is("plan")
        /\ LET D == GDist(C(E.s))[C(E.t)] IN
           /\ Check("success iff connected", E.ok = (D # GInf))
           /\ IF E.ok THEN /\ Check("ends", Len(E.path) > 0 /\ P[1] = C(E.s) /\ P[Len(P)] = C(E.t))
                           /\ Check("legal path", LegalPath(P))
                           /\ Check("optimal", E.cost = D)
                           /\ Check("cost of the path", PathCost(P, 1) = E.cost)
              ELSE Check("empty result", E.path = <<>> /\ E.cost = -1)
        /\ UNCHANGED gvars
\* what a search has explored: reachable states, all of them when it fails, and its path
ToCells(a) == { C(a[i]) : i \in DOMAIN a }
Reach(s) == LET D == GDist(s) IN { c \in DOMAIN D : D[c] # GInf }
Explored == /\ Is("explored")
            /\ LET f == TLCEval(ToCells(E.fwd)) b == TLCEval(ToCells(E.bwd)) reach == TLCEval(Reach(C(E.s))) IN
               /\ Check("each explored state once", Cardinality(f) = Len(E.fwd) /\ Cardinality(b) = Len(E.bwd))
               /\ Check("explored states are reachable", f \subseteq reach)
               /\ Check("everything is explored before the search fails", (~E.ok /\ ~E.bi) => f = reach)
               /\ Check("both directions explore", (E.bi /\ ~E.ok) => (f = reach \/ C(E.t) \in b))
               /\ Check("the path is explored", E.ok => \A i \in 1..(Len(E.path) - 1) : C(E.path[i]) \in f \cup b \cup {C(E.s), C(E.t)} \/ E.bi)
            /\ UNCHANGED gvars
TraceInit == l = 1 /\ rows = 0 /\ cols = 0 /\ occ = {} /\ straight = 0 /\ diag = 0 /\ price = <<>>
TraceNext == Case \/ Cost \/ Occ \/ NextEv \/ Plan \/ Explored
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
