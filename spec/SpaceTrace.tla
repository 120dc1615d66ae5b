------------------------------ MODULE SpaceTrace ------------------------------
(* State spaces.  Coordinate v/8 is written 2v, the next double below it 2v-1.   *)
EXTENDS Bounds, Common
VARIABLES l, lb, ub
vars == <<l, lb, ub>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Same == UNCHANGED <<lb, ub>>
Case == Is("case") /\ lb' = E.lb /\ ub' = E.ub
BoundsE == Is("bounds") /\ Check("bounds are kept", E.lb = lb /\ E.ub = ub /\ E.dim = Len(lb)) /\ Same
State == /\ Is("state")
         /\ Check("in bounds", E.in = In(E.s, lb, ub))
         /\ Check("enforcing bounds moves to the closest state in bounds", E.f = Clamp(E.s, lb, ub))
         /\ Check("enforced states are in bounds", E.ein /\ E.e2 = E.f)
         /\ Same
\* 600 draws: a tenth of the range is drawn 60 times on average (7 per standard deviation)
Uniform == /\ Is("uniform")
           /\ Check("number of samples", E.got = E.n)
           /\ Check("samples are in bounds", E.bad = 0)
           /\ Check("samples cover the bounds evenly", \A i \in DOMAIN E.buckets : lb[i] < ub[i] => \A j \in 1..10 : E.buckets[i][j] \in 8..160)
           /\ Same
Few == Is("few") /\ Check("number of samples", E.u = E.n /\ E.g = E.n) /\ Same
Gauss == /\ Is("gauss")
         /\ Check("number of samples", E.got = E.n)
         /\ Check("samples are in bounds", E.bad = 0)
         /\ Check("samples spread around the mean", \A i \in DOMAIN E.stat : LET s == E.stat[i] IN
               /\ E.free[i] = 1 => s[1] \in 200..400 /\ s[2] \in 200..400 /\ s[3] \in 320..490
               /\ E.zero[i] = 1 => s[4] = E.n)
         /\ Same
TraceInit == l = 1 /\ lb = <<>> /\ ub = <<>>
TraceNext == Case \/ BoundsE \/ State \/ Uniform \/ Few \/ Gauss
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
