----------------------------- MODULE Occupancy -----------------------------
(***************************************************************************)
(* The obstacle list: which obstacles are on the map and which cells each   *)
(* covered when it was added.                                               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
VARIABLES placed          \* obstacle -> set of cells it covers
Objs == DOMAIN placed
Covered == UNION { placed[o] : o \in Objs }
CoveredBy(c) == { o \in Objs : c \in placed[o] }
\* returns TRUE iff the obstacle was not yet on the map
AddEffect(o, cells) == IF o \in Objs THEN placed
                       ELSE [p \in Objs \cup {o} |-> IF p = o THEN cells ELSE placed[p]]
RemoveEffect(o) == [p \in Objs \ {o} |-> placed[p]]
\* a legal labelling of the grid: free iff uncovered, otherwise the label of a
\* covering obstacle; labels are distinct and never negative
LegalGrid(val, cells) ==
    /\ \A c \in cells : (val[c] < 0) = (c \notin Covered)
    /\ LET own(o) == { val[c] : c \in { x \in placed[o] : CoveredBy(x) = {o} } } IN
       /\ \A o \in Objs : Cardinality(own(o)) <= 1
       /\ \A o, p \in Objs : o # p => own(o) \cap own(p) = {}
       /\ \A c \in Covered :
            LET by == CoveredBy(c) IN
            (\E o \in by : own(o) = {} \/ val[c] \in own(o))
            /\ \A p \in Objs \ by : val[c] \notin own(p)
=============================================================================
