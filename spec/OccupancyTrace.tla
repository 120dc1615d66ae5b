--------------------------- MODULE OccupancyTrace ---------------------------
EXTENDS Occupancy, GridMath, Common
VARIABLES l, rows, cols
vars == <<placed, l, rows, cols>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Empty == [o \in {} |-> {}]
Case == /\ Is("case") /\ Check("size of the map", E.rows = E.wr /\ E.cols = E.wc)
        /\ rows' = E.rows /\ cols' = E.cols /\ placed' = Empty
Add == /\ Is("add")
       /\ Check("adding succeeds iff the obstacle is new", E.ok = (E.o \notin Objs))
       /\ Check("cells inside the map", \A c \in ToSet(E.cells) : c >= 0 /\ c < rows * cols)
       /\ placed' = TLCEval(AddEffect(E.o, ToSet(E.cells))) /\ UNCHANGED <<rows, cols>>
Remove == /\ Is("remove")
          /\ Check("removing succeeds iff the obstacle is there", E.ok = (E.o \in Objs))
          /\ placed' = TLCEval(RemoveEffect(E.o)) /\ UNCHANGED <<rows, cols>>
\* moving an obstacle that is on the map has no effect before it is added again
Move == /\ Is("move") /\ UNCHANGED <<placed, rows, cols>>
GridEv == /\ Is("grid")
          /\ Check("number of obstacles", E.num = Cardinality(Objs))
          /\ Check("dimensions", Len(E.vals) = rows * cols /\ Len(E.occ) = rows * cols)
          /\ LET val == [c \in 0..(rows * cols - 1) |-> E.vals[c + 1]] IN
             /\ Check("labels of the cells", LegalGrid(val, 0..(rows * cols - 1)))
             /\ Check("occupied cells", \A c \in 0..(rows * cols - 1) : (E.occ[c + 1] = 1) = (c \in Covered))
          /\ UNCHANGED <<placed, rows, cols>>
TraceInit == l = 1 /\ rows = 0 /\ cols = 0 /\ placed = Empty
TraceNext == Case \/ Add \/ Remove \/ Move \/ GridEv
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
