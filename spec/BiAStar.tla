------------------------------ MODULE BiAStar ------------------------------
(***************************************************************************)
(* Bidirectional best-first search, as designed: a forward search from the  *)
(* start and a reverse search from the goal, guided by a balanced pair of   *)
(* potentials; each step pops one state from either side, records the best  *)
(* meeting point, and stops when no better one can exist.  Potentials are   *)
(* doubled (the pair averages two heuristics).                              *)
(***************************************************************************)
EXTENDS AStar
VARIABLES pf, pr, gf, gr, of, or, cf, cr, best, bphase
bvars == <<n, edges, start, goal, pf, pr, gf, gr, of, or, cf, cr, best, bphase>>

\* doubled averaged potentials for heuristics hf (towards the goal), hr (towards the start)
PotF(hf, hr, t) == [v \in DOMAIN hf |-> hr[t] + hf[v] - hr[v]]
PotR(hf, hr, s) == [v \in DOMAIN hf |-> hf[s] + hr[v] - hf[v]]

BStart(N, E, s, t, hf, hr) ==
    /\ n = N /\ edges = E /\ start = s /\ goal = t
    /\ pf = PotF(hf, hr, t) /\ pr = PotR(hf, hr, s)
    /\ gf = [v \in 1..N |-> IF v = s THEN 0 ELSE AInf] /\ gr = [v \in 1..N |-> IF v = t THEN 0 ELSE AInf]
    /\ of = {s} /\ or = {t} /\ cf = {s} /\ cr = {t} /\ best = AInf /\ bphase = "fwd"

Key2(g, p, v) == 2 * g[v] + p[v]
BestIn(S, g, p) == { v \in S : \A w \in S : Key2(g, p, v) <= Key2(g, p, w) }
RelaxFrom(g, u, E, shut) ==
    [v \in DOMAIN g |-> IF v \in shut THEN g[v]
        ELSE AMin(g[v], AMinOf({ g[u] + E[i][3] : i \in { j \in DOMAIN E : E[j][1] = u /\ E[j][2] = v } }))]
\* the other side knows u (explored or pending): a meeting point
Meet(u, ga, gb) == IF gb[u] = AInf THEN best ELSE AMin(best, ga[u] + gb[u])

FwdStep(u) ==
    /\ bphase = "fwd" /\ of # {} /\ or # {}
    /\ u \in BestIn(of, gf, pf)
    /\ cf' = cf \cup {u}
    /\ gf' = RelaxFrom(gf, u, edges, cf')
    /\ of' = { v \in 1..n : gf'[v] # AInf } \ cf'
    /\ best' = Meet(u, gf, gr)
    /\ bphase' = "rev"
    /\ UNCHANGED <<n, edges, start, goal, pf, pr, gr, or, cr>>
RevStep(u) ==
    /\ bphase = "rev"
    /\ u \in BestIn(or, gr, pr)
    /\ cr' = cr \cup {u}
    /\ gr' = RelaxFrom(gr, u, Rev(edges), cr')
    /\ or' = { v \in 1..n : gr'[v] # AInf } \ cr'
    /\ best' = Meet(u, gr, gf)
    /\ bphase' = IF best' = AInf THEN (IF of = {} \/ or' = {} THEN "done" ELSE "fwd")
                 ELSE IF of = {} \/ or' = {} THEN "done"
                 ELSE LET topf == CHOOSE v \in of : v \in BestIn(of, gf, pf)
                          topr == CHOOSE v \in or' : v \in BestIn(or', gr', pr) IN
                      IF Key2(gf, pf, topf) + Key2(gr', pr, topr) >= 2 * best' + pf[goal] + pr[goal]
                      THEN "done" ELSE "fwd"
    /\ UNCHANGED <<n, edges, start, goal, pf, pr, gf, of, cf>>
\* the forward frontier emptied without a meeting point
BNext == (\E u \in 1..n : FwdStep(u)) \/ (\E u \in 1..n : RevStep(u))
=============================================================================
