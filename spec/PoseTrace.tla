------------------------------ MODULE PoseTrace ------------------------------
(* Poses <<x, y, theta, cos theta, sin theta>> in 0.1 mm, 0.1 mrad, 1e-4.      *)
EXTENDS PoseAlgebra, Common
VARIABLE l
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TwoPi == 62832
Turn(d) == ((d + 31416 + 20 * TwoPi) % TwoPi) - 31416
Angle(a, b) == Abs(Turn(a - b)) <= 5
Near(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol /\ Angle(a[3], b[3])
Wrapped(p) == p[3] >= -31417 /\ p[3] <= 31417
\* a moved by b
Move(a, b) == << a[1] + (a[4] * b[1] - a[5] * b[2]) \div 10000, a[2] + (a[5] * b[1] + a[4] * b[2]) \div 10000, a[3] + b[3] >>
\* exact check for headings of a whole number of quarter turns
Op == /\ Is("op")
      /\ Check("sum", Near(E.sum, Move(E.a, E.b), 16))
      /\ Check("difference", Near(Move(E.a, E.dif), E.b, 40))
      /\ Check("difference undoes sum", Near(E.minus, E.b, 3))
      /\ Check("sum undoes difference", Near(E.plus, E.b, 3))
      /\ Check("associative", Near(E.l, E.r, 4))
      /\ Check("identity", Near(E.id, E.a, 1))
      /\ Check("difference with itself", Near(E.self, <<0, 0, 0>>, 1))
      /\ Check("wrapped", \A p \in {E.sum, E.dif, E.minus, E.plus, E.l, E.r} : Wrapped(p))
Wrap == /\ Is("wrap") /\ Check("heading in (-pi, pi]", E.in)
        /\ Check("same heading", Angle(E.th, E.made) /\ Angle(E.th, E.wrapped))
Eq == /\ Is("eq")
      /\ Check("equality", E.eq = (E.u = E.v) /\ E.ne = ~E.eq /\ E.eqto = E.eq)
      /\ Check("hash of equal poses", E.eq => E.hash)
      /\ Check("points", E.peq = (SubSeq(E.u, 1, 2) = SubSeq(E.v, 1, 2)) /\ (E.peq => E.phash))
Key == Is("key") /\ Check("as keys, poses are equal up to whole turns", E.eqto /\ E.hash)
IntPose == Is("int") /\ Check("discrete heading is kept", E.made = E.th /\ E.wrapped = E.th)
Modulo == Is("mod") /\ Check("modulo", E.exact /\ E.r = Mod(E.x, E.m))
Cell == /\ Is("cell")
        /\ Check("valid cell", E.valid = (E.a[1] >= 0 /\ E.a[2] >= 0))
        /\ Check("neighbours", /\ Range(E.nb) = (IF E.valid THEN Neighbors(E.a[1], E.a[2], E.rows, E.cols) ELSE {})
                               /\ Len(E.nb) = Cardinality(Range(E.nb)) /\ Range(E.nb2) = Range(E.nb) /\ Len(E.nb2) = Len(E.nb))
        /\ Check("adjacent", E.valid => E.adj = (E.b \in Neighbors(E.a[1], E.a[2], E.rows, E.cols)))
        /\ Check("diagonal", (E.valid /\ E.adj) => E.diag = (E.a[1] # E.b[1] /\ E.a[2] # E.b[2]))
        /\ Check("equal cells", E.eq = (E.a = E.b) /\ E.ne = ~E.eq /\ (E.eq => E.hash))
\* points, the parts of a pose and cells (in halves and quarters)
Pt == /\ Is("pt")
      /\ Check("points", E.sum = <<E.a[1] + E.b[1], E.a[2] + E.b[2]>> /\ E.dif = <<E.a[1] - E.b[1], E.a[2] - E.b[2]>>)
      /\ Check("equal points", E.eq = (E.a = E.b) /\ E.ne = ~E.eq)
Set == Is("set") /\ Check("parts of a pose", E.got = E.want /\ E.xy = SubSeq(E.want, 1, 2))
Rc == Is("rc") /\ Check("row and column", E.got = E.want /\ E.shown)
TraceInit == l = 1
TraceNext == Is("case") \/ Op \/ Wrap \/ Eq \/ Key \/ IntPose \/ Modulo \/ Cell \/ Pt \/ Set \/ Rc
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
