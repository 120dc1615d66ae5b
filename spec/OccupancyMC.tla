---------------------------- MODULE OccupancyMC ----------------------------
(* The labelling algorithm of the map: an obstacle takes the smallest free   *)
(* label and overwrites its cells; removing it frees its cells and lets the  *)
(* obstacles that still cover them take them back.                           *)
EXTENDS Occupancy, TLC
CONSTANTS Obs, NCells
VARIABLES val, label, shapes
vars == <<placed, val, label, shapes>>
Cells == 1..NCells
Smallest == CHOOSE i \in 0..Cardinality(Obs) : i \notin { label[o] : o \in Objs } /\ \A j \in 0..(i - 1) : j \in { label[o] : o \in Objs }
Init == /\ shapes \in [Obs -> SUBSET Cells] /\ placed = [o \in {} |-> {}]
        /\ val = [c \in Cells |-> -1] /\ label = [o \in Obs |-> -1]
Add(o) == /\ o \notin Objs
          /\ placed' = AddEffect(o, shapes[o])
          /\ label' = [label EXCEPT ![o] = Smallest]
          /\ val' = [c \in Cells |-> IF c \in shapes[o] THEN Smallest ELSE val[c]]
          /\ UNCHANGED shapes
Remove(o) == /\ o \in Objs
             /\ placed' = RemoveEffect(o)
             /\ label' = [label EXCEPT ![o] = -1]
             \* any of the remaining covering obstacles may take the cell
             /\ \E pickf \in [placed[o] -> Obs \cup {o}] :
                  /\ \A c \in placed[o] : LET by == CoveredBy(c) \ {o} IN
                        IF by = {} THEN pickf[c] = o ELSE pickf[c] \in by
                  /\ val' = [c \in Cells |-> IF c \notin placed[o] THEN val[c]
                                             ELSE IF pickf[c] = o THEN -1 ELSE label[pickf[c]]]
             /\ UNCHANGED shapes
\* an obstacle may have another shape when it is added again
Reshape(o) == /\ o \notin Objs /\ \E s \in SUBSET Cells : shapes' = [shapes EXCEPT ![o] = s]
              /\ UNCHANGED <<placed, val, label>>
Next == \E o \in Obs : Add(o) \/ Remove(o) \/ Reshape(o)
Spec == Init /\ [][Next]_vars
GridIsLegal == LegalGrid(val, Cells)
LabelsDistinct == \A o, p \in Objs : o # p => label[o] # label[p]
=============================================================================
