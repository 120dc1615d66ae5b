------------------------------- MODULE TreeMC -------------------------------
(* Design model: every history of operations on a forest of up to Max nodes.   *)
EXTENDS Hierarchy, TLC
CONSTANT Max
VARIABLES par, last
vars == <<par, last>>
Init == par = << >> /\ last = << >>
Ids == DOMAIN par
New == \E c \in (1..Max) \ Ids : par' = NewNode(par, c) /\ last' = <<"new", c>>
Add == \E c \in Roots(par), p \in Ids : p \notin Sub(par, c) /\ par' = Adopt(par, p, c) /\ last' = <<"add", c>>
Remove == \E c \in Ids \ Roots(par) : par' = Detach(par, c) /\ last' = <<"remove", c>>
Repl == \E b \in Ids \ Roots(par), c \in Roots(par), a \in BOOLEAN :
          Kids(par, c) = {} /\ par' = Replace(par, b, c, a) /\ last' = <<"replace", b>>
Move == \E c, p \in Ids : c # p /\ (Anc(par, c) \cup {c}) \cap (Anc(par, p) \cup {p}) # {} /\ par' = Reparent(par, c, p) /\ last' = <<"move", c>>
Rm == \E c \in Roots(par) : par' = Drop(par, c) /\ last' = <<"drop", c>>
Next == New \/ Add \/ Remove \/ Repl \/ Move \/ Rm
Spec == Init /\ [][Next]_vars
Forest == Acyclic(par) /\ \A n \in Ids : par[n] = 0 \/ par[n] \in Ids
Partition == \A n \in Ids : Cardinality({ r \in Roots(par) : n \in Sub(par, r) }) = 1
DepthOK == \A n \in Ids : Depth(par, n) = (IF par[n] = 0 THEN 0 ELSE 1 + Depth(par, par[n]))
\* rewiring keeps the tree whole: no node is lost, no other node moves
Rewire == [][ (last'[1] = "move") => /\ DOMAIN par' = DOMAIN par
                                     /\ Cardinality(Roots(par')) = Cardinality(Roots(par))
                                     /\ Cardinality({ n \in Ids : par'[n] # par[n] }) <= 2 ]_vars
=============================================================================
