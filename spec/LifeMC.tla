------------------------------- MODULE LifeMC -------------------------------
(* A design with reference counts: Python's references and one per user         *)
(* (keep-alive).  An object is freed when its count drops to zero, and releases  *)
(* what it uses.  Checked: exactly the objects of Lifetime!Alive are alive.      *)
EXTENDS Lifetime, TLC
CONSTANT Objs
VARIABLES count, freed
vars == <<lvars, count, freed>>
Init == LifeInit /\ count = [o \in {} |-> 0] /\ freed = {}
Make(o, u) == /\ Create(o, u)
              /\ count' = [x \in known \cup {o} |-> IF x = o THEN 1 ELSE count[x] + (IF x \in u THEN 1 ELSE 0)]
              /\ UNCHANGED freed
\* freeing is a step of its own
Release(o) == /\ Drop(o) /\ count' = [count EXCEPT ![o] = @ - 1] /\ UNCHANGED freed
Free(o) == /\ o \in known \ freed /\ count[o] = 0
           /\ freed' = freed \cup {o}
           /\ count' = [x \in known |-> IF x \in uses[o] THEN count[x] - 1 ELSE count[x]]
           /\ UNCHANGED lvars
Next == \E o \in Objs : (\E u \in SUBSET Objs : Make(o, u)) \/ Release(o) \/ Free(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E o \in Objs : Free(o))
NoDangling == \A o \in known \ freed : uses[o] \cap freed = {}
AliveKept == Alive \cap freed = {}
Quiet == ~\E o \in known \ freed : count[o] = 0
NoLeak == Quiet => known \ freed = Alive
CalledLive == \A o \in held : Called(o) \cap freed = {}
=============================================================================
