------------------------------- MODULE BikeMC -------------------------------
(* Design model of the bicycle on the quarter-turn lattice: the rear axle       *)
(* follows arcs and lines, the reference point is B ahead of it.                *)
EXTENDS RSLattice
CONSTANTS B, Steps
VARIABLES rear, arcs, n
vars == <<rear, arcs, n>>
\* <<reference point, heading>>
Ref(p) == << p[1] + B * hx(p[3]), p[2] + B * hy(p[3]), p[3] >>
RearOf(c) == << c[1] - B * hx(c[3]), c[2] - B * hy(c[3]), c[3] >>
Centre(p, s) == << p[1] + hx(p[3] + s + 4), p[2] + hy(p[3] + s + 4) >>
Init == rear = <<0, 0, 0>> /\ arcs = <<0, 0>> /\ n = 0
Drive(s, d) == /\ rear' = (IF s = 0 THEN Straight(rear, d) ELSE Arc(rear, s, d)) /\ arcs' = <<s, d>> /\ n' = n + 1
Next == n < Steps /\ \E s \in {-1, 0, 1}, d \in {1, -1} : Drive(s, d)
Spec == Init /\ [][Next]_vars
Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Recover == RearOf(Ref(rear)) = rear
\* the reference point stays at the distance sqrt(R^2 + B^2) of a centre that does not move
Circle == \A s \in {1, -1}, d \in {1, -1} : /\ Centre(Arc(rear, s, d), s) = Centre(rear, s)
                                             /\ Sq(Ref(rear), Centre(rear, s)) = 1 + B * B
Reversible == \A s \in {1, -1}, d \in {1, -1} : Arc(Arc(rear, s, d), s, -d) = rear /\ Straight(Straight(rear, d), -d) = rear
Full == \A s \in {1, -1}, d \in {1, -1} : Arc(Arc(Arc(Arc(rear, s, d), s, d), s, d), s, d) = rear
=============================================================================
