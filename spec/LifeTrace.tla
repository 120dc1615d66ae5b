------------------------------ MODULE LifeTrace ------------------------------
EXTENDS Lifetime, Common
VARIABLE l
vars == <<lvars, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Case == Is("case") /\ known' = {} /\ held' = {} /\ uses' = [o \in {} |-> {}]
New == Is("new") /\ Create(E.id, Range(E.uses))
DropE == Is("drop") /\ Drop(E.id)
AliveE == Is("alive") /\ Check("alive while used, freed when not", Range(E.ids) = Alive) /\ UNCHANGED lvars
Use == Is("use") /\ E.id \in held /\ Check("planner works", E.ok) /\ UNCHANGED lvars
TraceInit == l = 1 /\ LifeInit
TraceNext == Case \/ New \/ DropE \/ AliveE \/ Use
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
