----------------------------- MODULE FrontierMC -----------------------------
(* Exhaustive check of the implementation's design: a sorted vector plus a  *)
(* hash set, with the binary searches of the code transcribed, against the  *)
(* abstract priority list of module Frontier, on all histories over a small *)
(* domain.                                                                  *)
EXTENDS Frontier, TLC

CONSTANTS Keys, Prios, MaxLen
VARIABLES vec, last

vars == <<fvars, vec, last>>
Elem == { <<k, p, 0>> : k \in Keys, p \in Prios }

Cmp(a, b) == dir * FPrio(a) < dir * FPrio(b)      \* the comparison object

\* Frontier::FindFirstCompareIsFalse, as in the code: 0-based position
RECURSIVE FirstFalse(_, _, _)
FirstFalse(v, b, e) ==
    IF b = e THEN b
    ELSE LET mid == b + (e - b) \div 2
             nxt == mid + 1 IN
         IF Cmp(v, vec[mid + 1]) THEN FirstFalse(v, b, mid)
         ELSE IF nxt # Len(vec) /\ ~Cmp(v, vec[nxt + 1]) THEN FirstFalse(v, nxt, e)
         ELSE nxt
\* Frontier::FindLastCompareIsTrue
RECURSIVE LastTrue(_, _, _)
LastTrue(v, b, e) ==
    IF b = e THEN b
    ELSE LET mid == b + (e - b) \div 2
             nxt == mid + 1 IN
         IF ~Cmp(vec[mid + 1], v) THEN LastTrue(v, b, mid)
         ELSE IF nxt # Len(vec) /\ Cmp(vec[nxt + 1], v) THEN LastTrue(v, nxt, e)
         ELSE mid

InsertAt(s, pos, x) == SubSeq(s, 1, pos) \o <<x>> \o SubSeq(s, pos + 1, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Init == (\E d \in {1, -1} : FInit(d)) /\ vec = <<>> /\ last = TRUE

Push(x) == /\ Len(vec) < MaxLen
           /\ FPush(x, ~FHas(FKey(x)), IF FHas(FKey(x)) THEN FGet(FKey(x)) ELSE x)
           /\ vec' = IF FHas(FKey(x)) THEN vec ELSE InsertAt(vec, FirstFalse(x, 0, Len(vec)), x)
           /\ last' = TRUE
\* the design pops the back of the vector; it must be a legitimate top
Pop == /\ vec # <<>>
       /\ last' = FIsTop(vec[Len(vec)])
       /\ elems' = elems \ {vec[Len(vec)]} /\ UNCHANGED dir
       /\ vec' = SubSeq(vec, 1, Len(vec) - 1)
\* the design erases the first equal element at or after the search position
Remove(k) == /\ FRemove(k, IF FHas(k) THEN 1 ELSE 0)
             /\ IF ~FHas(k) THEN vec' = vec /\ last' = TRUE
                ELSE LET from == LastTrue(FGet(k), 0, Len(vec)) + 1
                         hits == { i \in from..Len(vec) : FKey(vec[i]) = k } IN
                     IF hits = {} THEN last' = FALSE /\ vec' = vec
                     ELSE /\ vec' = RemoveAt(vec, CHOOSE i \in hits : \A j \in hits : i <= j)
                          /\ last' = TRUE
Clear == FClear /\ vec' = <<>> /\ last' = TRUE
Next == (\E x \in Elem : Push(x)) \/ Pop \/ (\E k \in Keys : Remove(k)) \/ Clear
Spec == Init /\ [][Next]_vars

Sorted == \A i \in 1..(Len(vec) - 1) : ~Cmp(vec[i + 1], vec[i])
Same == { vec[i] : i \in DOMAIN vec } = elems /\ Len(vec) = Cardinality(elems)
StepOK == last
=============================================================================
