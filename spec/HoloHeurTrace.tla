---------------------------- MODULE HoloHeurTrace ----------------------------
(* The non-holonomic heuristic: least Reeds-Shepp cost from the state to the     *)
(* goal, looked up for the relative pose rounded to a grid as large as the       *)
(* bounds (with a vertex at the origin); elsewhere the straight line with the    *)
(* cheaper multiplier.  Lengths in 1/64 m, dx, dy in 1/64 mm, angles in 1e-5,    *)
(* values in 1e-4.                                                               *)
EXTENDS Common
VARIABLES l, m
vars == <<l, m>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
CeilDiv(a, b) == (a + b - 1) \div b
Odd(n) == IF n % 2 = 0 THEN n + 1 ELSE n
TwoPi == 628319
Case == /\ Is("case") /\ m' = E
        /\ Check("size of the table", /\ E.num[1] = Odd(CeilDiv(E.w, E.sr)) /\ E.num[2] = Odd(CeilDiv(E.h, E.sr))
                                      /\ E.num[3] * E.ar >= TwoPi - 2 * E.num[3] /\ (E.num[3] - 1) * E.ar < TwoPi + 2 * E.num[3])
\* grid indices an offset d may be rounded to: one, or two halfway
Near(d, step, tol) == { k \in {d \div step, d \div step + 1} : 2 * Abs(d - k * step) <= step + tol }
Query ==
    /\ Is("query")
    /\ LET hx == m.num[1] \div 2 hy == m.num[2] \div 2
           I == Near(E.dx, m.sr * 1000, 4) J == Near(E.dy, m.sr * 1000, 4) K == Near(E.dt, m.ar, m.num[3] + 6)
           In(i, j) == Abs(i) <= hx /\ Abs(j) <= hy
           line == (E.dist * Min2(m.rv, m.fw)) \div 4
           Vertex(i, j, k) == LET wrap == k >= m.num[3]
                                  n == CHOOSE x \in DOMAIN E.tab : E.tab[x][1] = i /\ E.tab[x][2] = j /\ E.tab[x][3] = k IN
                IF wrap THEN E.zero[CHOOSE x \in DOMAIN E.zero : E.zero[x][1] = i /\ E.zero[x][2] = j][3] ELSE E.tab[n][4]
           Allowed == { IF In(i, j) THEN Vertex(i, j, k) ELSE line : i \in I, j \in J, k \in K }
           Ok(v) == \E a \in Allowed : Abs(v - a) <= 3 IN
       /\ Check("value", Ok(E.v) /\ Ok(E.direct))
       /\ Check("same value wherever the two poses are", Ok(E.moved))
       /\ Check("combination is the largest value", Abs(E.both - Max2(E.v, E.other)) <= 3)
       /\ Check("nothing left at the goal", (E.dist = 0 /\ E.dt = 0) => E.v = 0)
    /\ UNCHANGED m
TraceInit == l = 1 /\ m = <<>>
TraceNext == Case \/ Query
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
