------------------------------ MODULE Hierarchy ------------------------------
(* A forest of nodes: par maps every node to its parent, 0 for a root.         *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE AncF(_, _, _)
AncF(par, n, fuel) == IF par[n] = 0 \/ fuel = 0 THEN {} ELSE {par[n]} \cup AncF(par, par[n], fuel - 1)
\* ancestors of n
Anc(par, n) == AncF(par, n, Cardinality(DOMAIN par))
Depth(par, n) == Cardinality(Anc(par, n))
Kids(par, n) == { m \in DOMAIN par : par[m] = n }
Sub(par, n) == { m \in DOMAIN par : m = n \/ n \in Anc(par, m) }
Roots(par) == { m \in DOMAIN par : par[m] = 0 }
NewNode(par, c) == [n \in (DOMAIN par) \cup {c} |-> IF n = c THEN 0 ELSE par[n]]
Adopt(par, p, c) == [par EXCEPT ![c] = p]
Detach(par, c) == [par EXCEPT ![c] = 0]
\* c takes the place of b
Replace(par, b, c, adopt) == [n \in DOMAIN par |-> IF n = c THEN par[b] ELSE IF n = b THEN 0 ELSE IF adopt /\ par[n] = b THEN c ELSE par[n]]
\* p becomes the parent of c; if it was below c, it first takes the place of c
Reparent(par, c, p) == IF c \in Anc(par, p) THEN [par EXCEPT ![p] = par[c], ![c] = p] ELSE [par EXCEPT ![c] = p]
Drop(par, c) == LET s == Sub(par, c) IN [n \in (DOMAIN par) \ s |-> par[n]]
Acyclic(par) == \A n \in DOMAIN par : n \notin Anc(par, n)
=============================================================================
