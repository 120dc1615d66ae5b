--------------------------------- MODULE RRT ---------------------------------
(* Rapidly exploring random trees over points given by an integer metric.      *)
EXTENDS Integers, Sequences, FiniteSets
\* integer square root
RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m - 1)
Sqrt(n) == SqrtIn(n, 0, 46340)
\* par: node -> parent (0 for the root), a tree rooted at root
RECURSIVE Chain(_, _, _)
Chain(par, n, fuel) == IF fuel = 0 \/ n = 0 THEN <<>> ELSE Append(Chain(par, par[n], fuel - 1), n)
PathTo(par, n) == Chain(par, n, Cardinality(DOMAIN par) + 1)
\* number of neighbours considered by RRT* in a tree of n nodes: floor(ln n), at least 1
Neighbours(n) == IF n < 8 THEN 1 ELSE IF n < 21 THEN 2 ELSE IF n < 55 THEN 3 ELSE IF n < 149 THEN 4 ELSE IF n < 404 THEN 5 ELSE 6
=============================================================================
