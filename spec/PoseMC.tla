------------------------------- MODULE PoseMC -------------------------------
(* Design model: a frame moved by arbitrary sequences of relative poses.       *)
EXTENDS PoseAlgebra, TLC
CONSTANTS W, Steps
VARIABLES p, acc, n
vars == <<p, acc, n>>
Box == ((-W)..W) \X ((-W)..W) \X (0..3)
\* p: pose after the moves; acc: composition of the moves on its own
Init == p \in Box /\ acc = Zero /\ n = 0
Next == n < Steps /\ \E m \in Box : p' = Plus(p, m) /\ acc' = Plus(acc, m) /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Inverse == \A m \in Box : Minus(Plus(p, m), p) = m /\ Plus(p, Minus(m, p)) = m
Identity == Plus(p, Zero) = p /\ Plus(Zero, p) = p /\ Minus(p, p) = Zero
\* moving step by step is moving by the composition
Assoc == \A m \in Box : Plus(Plus(p, acc), m) = Plus(p, Plus(acc, m))
\* rigid: the distance between two points does not depend on the frame
Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Rigid == \A m \in Box : Sq(Plus(p, m), Plus(p, acc)) = Sq(m, acc)
=============================================================================
