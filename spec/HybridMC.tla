------------------------------ MODULE HybridMC ------------------------------
(* Design of Hybrid A*: best-first search over states (poses) that are told      *)
(* apart only by their cell, with a shot to the goal from some states.  States    *)
(* 1..N, the goal is N + 1.  OwnCell: the goal has a cell of its own; with FALSE  *)
(* TLC shows how a state in the cell of the goal hides it.                        *)
EXTENDS Hybrid
CONSTANTS N, OwnCell
VARIABLES next, far, cellOf, shots, T, frontier, explored, result
vars == <<next, far, cellOf, shots, T, frontier, explored, result>>
\* next: a motion of cost `far` from each state; the other one, of cost 1, goes round
States == 1..N
Goal == N + 1
Round(s) == (s % N) + 1
Canon == { f \in [States -> 1..N] : \A i \in States : f[i] <= i }
CellAt(s) == IF s = Goal THEN (IF OwnCell THEN 0 ELSE cellOf[N]) ELSE cellOf[s]
Kids(s) == { cellOf[Round(s)], cellOf[next[s]] }
MkNode(s, p, g) == [state |-> s, par |-> p, cell |-> CellAt(s), g |-> g, h |-> IF s = Goal THEN 0 ELSE 1, goal |-> s = Goal, rs |-> s = Goal,
                  kids |-> IF s = Goal THEN {} ELSE Kids(s), shot |-> IF s \in shots THEN 2 ELSE -1]
Init == /\ next \in [States -> States] /\ far \in {1, 3} /\ cellOf \in Canon /\ shots \in SUBSET States
        /\ T = << MkNode(1, {}, 0) >> /\ frontier = {1} /\ explored = {cellOf[1]} /\ result = 0
\* push a child of node p
Push(S, p, s, c) ==
    LET n == MkNode(s, {p}, S.t[p].g + c)
        same == { i \in S.f : S.t[i].cell = n.cell } IN
    IF same # {} THEN
        LET i == CHOOSE x \in same : TRUE IN
        IF S.t[i].state = s /\ n.g < S.t[i].g THEN [t |-> Append(S.t, n), f |-> (S.f \ {i}) \cup {Len(S.t) + 1}, x |-> S.x] ELSE S
    ELSE IF n.cell \in S.x THEN S
    ELSE [t |-> Append(S.t, n), f |-> S.f \cup {Len(S.t) + 1}, x |-> S.x]
Pop == /\ result = 0 /\ frontier # {}
       /\ \E n \in frontier :
          /\ \A m \in frontier : T[n].g + T[n].h <= T[m].g + T[m].h
          /\ IF T[n].goal THEN result' = n /\ UNCHANGED <<T, frontier, explored>>
             ELSE LET s == T[n].state
                      s0 == [t |-> T, f |-> frontier \ {n}, x |-> explored \cup {T[n].cell}]
                      s1 == Push(s0, n, Round(s), 1)
                      s2 == Push(s1, n, next[s], far)
                      s3 == IF s \in shots THEN Push(s2, n, Goal, 2) ELSE s2 IN
                  T' = s3.t /\ frontier' = s3.f /\ explored' = s3.x /\ UNCHANGED result
       /\ UNCHANGED <<next, far, cellOf, shots>>
Fail == result = 0 /\ frontier = {} /\ result' = -1 /\ UNCHANGED <<next, far, cellOf, shots, T, frontier, explored>>
Spec == Init /\ [][Pop \/ Fail]_vars /\ WF_vars(Pop \/ Fail)
Done == result # 0
Cost == IF result > 0 THEN T[result].g ELSE -1
X == Expanded(T, result > 0, Cost, 0)
InvClosed == Done => Closed(T, X)
InvShot == Done => ShotTaken(T, X, result > 0, Cost, 0)
InvCell == \A i \in Live(T) : \A j \in DOMAIN T : (T[i].cell = T[j].cell /\ ~T[i].rs /\ ~T[j].rs) => T[i].state = T[j].state
InvFail == result = -1 => \A i \in DOMAIN T : ~T[i].goal
InvCost == \A i \in DOMAIN T : i > 1 => \E p \in T[i].par : T[i].g > T[p].g
Bounded == Len(T) <= 3 * N + 2
Ends == <>Done
=============================================================================
