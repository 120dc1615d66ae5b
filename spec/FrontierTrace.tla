---------------------------- MODULE FrontierTrace ----------------------------
(* Recorded histories of Planner::Frontier against module Frontier.          *)
EXTENDS Frontier, Common

VARIABLE l
vars == <<fvars, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
El(a) == <<a[1], a[2], a[3]>>
\* size and emptiness, logged with every event, are those of the new state
Sizes == /\ Check("size", E.size = Cardinality(elems'))
         /\ Check("empty", E.empty = (elems' = {}))

Case == Is("case") /\ dir' = E.dir /\ elems' = {}
Push == Is("push") /\ FPush(El(E.x), E.ins, El(E.got)) /\ Sizes
Pop == Is("pop") /\ FPop(El(E.x)) /\ Sizes
Top == Is("top") /\ FTop(El(E.x)) /\ Sizes
Remove == Is("remove") /\ FRemove(E.k, E.n) /\ Sizes
Find == Is("find") /\ FFind(E.k, E.found, El(E.x)) /\ Sizes
Clear == Is("clear") /\ FClear /\ Sizes
Iterate == Is("iter") /\ FIterate([i \in 1..Len(E.s) |-> El(E.s[i])]) /\ Sizes

TraceInit == l = 1 /\ FInit(1)
TraceNext == Case \/ Push \/ Pop \/ Top \/ Remove \/ Find \/ Clear \/ Iterate
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
