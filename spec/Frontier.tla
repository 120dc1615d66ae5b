------------------------------ MODULE Frontier ------------------------------
(***************************************************************************)
(* The priority list with unique membership used by every graph search of  *)
(* the library: a set of elements, at most one per key, ordered by a        *)
(* priority.  An element is <<key, prio, tag>>; two elements are equal iff  *)
(* their keys are equal; the tag identifies the stored object.              *)
(* `dir` = 1: the top is the largest priority; -1: the smallest.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES dir, elems

fvars == <<dir, elems>>

FKey(x) == x[1]
FPrio(x) == x[2]

FKeys == { FKey(x) : x \in elems }
FHas(k) == \E x \in elems : FKey(x) = k
FGet(k) == CHOOSE x \in elems : FKey(x) = k
\* x is not below any element: a legitimate top (ties are broken anyhow)
FIsTop(x) == x \in elems /\ \A y \in elems : dir * FPrio(x) >= dir * FPrio(y)

FInit(d) == dir = d /\ elems = {}

\* Push: stored unless an equal element is present, which is then kept as is
FPush(x, inserted, got) ==
    /\ inserted = ~FHas(FKey(x))
    /\ IF FHas(FKey(x)) THEN got = FGet(FKey(x)) /\ UNCHANGED elems
                        ELSE got = x /\ elems' = elems \cup {x}
    /\ UNCHANGED dir
FPop(x) == FIsTop(x) /\ elems' = elems \ {x} /\ UNCHANGED dir
FTop(x) == FIsTop(x) /\ UNCHANGED fvars
FRemove(k, n) ==
    /\ n = (IF FHas(k) THEN 1 ELSE 0)
    /\ elems' = { x \in elems : FKey(x) # k }
    /\ UNCHANGED dir
FFind(k, found, x) ==
    /\ found = FHas(k)
    /\ found => x = FGet(k)
    /\ UNCHANGED fvars
FClear == elems' = {} /\ UNCHANGED dir
\* iteration visits every element once, in order (the top comes last)
FIterate(s) ==
    /\ Len(s) = Cardinality(elems)
    /\ { s[i] : i \in DOMAIN s } = elems
    /\ \A i \in 1..(Len(s) - 1) : dir * FPrio(s[i]) <= dir * FPrio(s[i + 1])
    /\ UNCHANGED fvars

Unique == \A x, y \in elems : FKey(x) = FKey(y) => x = y
=============================================================================
