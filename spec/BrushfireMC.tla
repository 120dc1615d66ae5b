---------------------------- MODULE BrushfireMC ----------------------------
(***************************************************************************)
(* The dynamic brushfire that maintains a distance map: obstacles are set   *)
(* and cleared between updates; an update first clears the cells that refer *)
(* to a cleared obstacle, then pops cells by increasing distance, raising   *)
(* (clearing) or lowering (relaxing) their neighbours.  Checked: when the   *)
(* queue is empty the map is exact, for every history and every order among *)
(* equal priorities.                                                        *)
(***************************************************************************)
EXTENDS GridMath
CONSTANTS R, C, Ops
VARIABLES obst, dist, near, raise, proc, q, removed, phase, left
vars == <<obst, dist, near, raise, proc, q, removed, phase, left>>
Cells == 0..(R * C - 1)
Big == 1000
Init == /\ obst = {} /\ dist = [c \in Cells |-> Big] /\ near = [c \in Cells |-> -1]
        /\ raise = {} /\ proc = {} /\ q = {} /\ removed = FALSE /\ phase = "idle" /\ left = Ops
IsObst(c) == c # -1 /\ near[c] = c
SetO(c) == /\ phase = "idle" /\ left > 0 /\ left' = left - 1
           /\ obst' = obst \cup {c} /\ near' = [near EXCEPT ![c] = c] /\ dist' = [dist EXCEPT ![c] = 0]
           /\ q' = q \cup {<<c, 0>>} /\ proc' = proc \cup {c}
           /\ UNCHANGED <<raise, removed, phase>>
UnsetO(c) == /\ phase = "idle" /\ left > 0 /\ left' = left - 1 /\ c \in obst
             /\ obst' = obst \ {c} /\ near' = [near EXCEPT ![c] = -1] /\ dist' = [dist EXCEPT ![c] = Big]
             /\ raise' = raise \cup {c} /\ q' = q \cup {<<c, Big>>} /\ proc' = proc \cup {c}
             /\ removed' = TRUE /\ UNCHANGED phase
Start == /\ phase = "idle" /\ q # {}
         /\ LET stale == IF removed THEN { c \in Cells : near[c] # -1 /\ ~IsObst(near[c]) } ELSE {} IN
            /\ near' = [c \in Cells |-> IF c \in stale THEN -1 ELSE near[c]]
            /\ dist' = [c \in Cells |-> IF c \in stale THEN Big ELSE dist[c]]
            /\ raise' = raise \cup stale /\ proc' = proc \cup stale
            /\ q' = q \cup { <<c, Big>> : c \in stale }
         /\ removed' = FALSE /\ phase' = "run" /\ UNCHANGED <<obst, left>>
Pop == \E e \in q :
    /\ phase = "run" /\ \A f \in q : e[2] <= f[2]
    /\ LET s == e[1] q1 == q \ {e} nb == Neighbours(s, R, C) IN
       IF s \notin proc THEN q' = q1 /\ UNCHANGED <<dist, near, raise, proc>>
       ELSE IF s \in raise
       THEN LET touched == { n \in nb : near[n] # -1 /\ n \notin raise }
                gone == { n \in touched : ~IsObst(near[n]) } IN
            /\ near' = [c \in Cells |-> IF c \in gone THEN -1 ELSE near[c]]
            /\ dist' = [c \in Cells |-> IF c \in gone THEN Big ELSE dist[c]]
            /\ raise' = (raise \cup gone) \ {s}
            /\ q' = q1 \cup { <<n, dist'[n]>> : n \in touched } /\ proc' = proc \cup touched
       ELSE IF IsObst(near[s])
       THEN LET better == { n \in nb : n \notin raise /\ D2(near[s], n, C) < dist[n] } IN
            /\ near' = [c \in Cells |-> IF c \in better THEN near[s] ELSE near[c]]
            /\ dist' = [c \in Cells |-> IF c \in better THEN D2(near[s], c, C) ELSE dist[c]]
            /\ q' = q1 \cup { <<n, D2(near[s], n, C)>> : n \in better }
            /\ proc' = (proc \ {s}) \cup better /\ UNCHANGED raise
       ELSE q' = q1 /\ UNCHANGED <<dist, near, raise, proc>>
    /\ UNCHANGED <<obst, removed, phase, left>>
Done == /\ phase = "run" /\ q = {} /\ phase' = "idle" /\ UNCHANGED <<obst, dist, near, raise, proc, q, removed, left>>
Next == (\E c \in Cells : SetO(c) \/ UnsetO(c)) \/ Start \/ Pop \/ Done
Spec == Init /\ [][Next]_vars
\* what the trace specification demands of the real code
Exact == (q = {}) => \A c \in Cells :
            IF obst = {} THEN near[c] = -1 /\ dist[c] = Big
            ELSE near[c] \in obst /\ dist[c] = D2(c, near[c], C) /\ dist[c] = Nearest2(c, obst, C)
=============================================================================
