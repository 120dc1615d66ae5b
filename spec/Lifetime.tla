------------------------------ MODULE Lifetime ------------------------------
(* Lifetimes of objects shared by Python and C++.  An object uses others (a     *)
(* planner its heuristic, a propagator its map).  An object implemented in      *)
(* Python lives while Python holds it or a living object uses it.               *)
EXTENDS Integers, FiniteSets
VARIABLES known, held, uses      \* objects, those Python holds, object -> objects it uses
lvars == <<known, held, uses>>
RECURSIVE Closure(_)
Closure(S) == LET n == S \cup UNION { uses[o] : o \in S } IN IF n = S THEN S ELSE Closure(n)
Alive == Closure(held)
LifeInit == known = {} /\ held = {} /\ uses = [o \in {} |-> {}]
\* only living objects can be used by a new one
Create(o, u) == /\ o \notin known /\ u \subseteq held
                /\ known' = known \cup {o} /\ held' = held \cup {o}
                /\ uses' = [x \in known \cup {o} |-> IF x = o THEN u ELSE uses[x]]
Drop(o) == o \in held /\ held' = held \ {o} /\ UNCHANGED <<known, uses>>
\* what C++ may call when Python calls o
Called(o) == Closure({o})
=============================================================================
