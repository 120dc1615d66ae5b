------------------------------ MODULE RRTTrace ------------------------------
(* Searches of RRT and RRT* as seen by the state space, the validator and the  *)
(* path connection they use.  Points are numbered; xy in mm.                   *)
EXTENDS RRT, Common
VARIABLES l, star, corner, xy, run, nodes, adm, cost, samples, steer, cand, iters, sol
\* run: the search; nodes: points of the tree; adm: admissible parents of a node;
\* cost: length from the root; steer: the step under way; cand: connections tried
\* for the new point, <<from, length, result (0 not checked, 1 valid, 2 not)>>
vars == <<l, star, corner, xy, run, nodes, adm, cost, samples, steer, cand, iters, sol>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
None == [from |-> 0, to |-> 0, new |-> 0, len |-> 0]
Case == /\ Is("case") /\ star' = E.star /\ corner' = E.corner /\ xy' = <<>> /\ run' = [init |-> 0] /\ nodes' = {} /\ adm' = <<>> /\ cost' = <<>>
        /\ samples' = {} /\ steer' = None /\ cand' = {} /\ iters' = 0 /\ sol' = 0
Pt == /\ Is("pt") /\ xy' = Append(xy, <<E.x, E.y>>) /\ E.id = Len(xy) + 1
      /\ UNCHANGED <<star, corner, run, nodes, adm, cost, samples, steer, cand, iters, sol>>
Sq(a, b) == LET p == xy[a] q == xy[b] IN (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Dist(a, b) == Sqrt(Sq(a, b))
\* length of the path between two points: straight, or along x and then y
Path(a, b) == IF corner THEN Abs(xy[a][1] - xy[b][1]) + Abs(xy[a][2] - xy[b][2]) ELSE Dist(a, b)
Tol == 4
Start == /\ Is("start") /\ run' = E /\ nodes' = {E.init} /\ adm' = [n \in {E.init} |-> {}] /\ cost' = [n \in {E.init} |-> 0]
         /\ samples' = {} /\ steer' = None /\ cand' = {} /\ iters' = 0 /\ sol' = 0 /\ UNCHANGED <<star, corner, xy>>
Sample == /\ Is("sample") /\ samples' = samples \cup {E.q} /\ UNCHANGED <<star, corner, xy, run, nodes, adm, cost, steer, cand, iters, sol>>
InGoal(n) == IF star THEN n = run.goal ELSE Sq(n, run.goal) < 1010000
\* too close to the distance at which the goal counts as reached to say
Maybe(n) == n # 0 /\ ~star /\ Sq(n, run.goal) > 990000
\* the tree with the point under way: RRT* takes the cheapest valid connection
Closed ==
    IF steer.new = 0 \/ steer.new \in nodes THEN [nodes |-> nodes, adm |-> adm, cost |-> cost, ok |-> TRUE]
    ELSE LET b == steer.new
             good == { c \in cand : c[3] = 1 } \cup { <<steer.from, steer.len, 1>> }
             best == MinSet({ cost[c[1]] + c[2] : c \in IF star /\ { c \in cand : c[3] = 1 } # {} THEN { c \in cand : c[3] = 1 } ELSE good })
             par == IF star THEN { c[1] : c \in { g \in good : cost[g[1]] + g[2] <= best + Tol } } ELSE {steer.from}
             tried == { c[1] : c \in { x \in cand : x[3] # 0 } }
             d == TLCEval([n \in nodes |-> Sq(n, b)])
             k == Neighbours(Cardinality(nodes))
             \* surely one of the k nearest
             near(n) == LET m == d[n] + 4 * Sqrt(d[n]) + 16 IN Cardinality({ x \in nodes : d[x] <= m }) <= k
             \* surely not one of the k nearest
             far(n) == LET m == d[n] - 4 * Sqrt(d[n]) - 16 IN Cardinality({ x \in nodes : d[x] < m }) >= k
             cheaper(n) == LET r == best - Tol - cost[n] IN r > 0 /\ (IF corner THEN r > Path(n, b) ELSE r > 40000 \/ r * r > d[n]) IN
         [nodes |-> nodes \cup {b},
          adm |-> [n \in nodes \cup {b} |-> IF n = b THEN par ELSE adm[n]],
          cost |-> [n \in nodes \cup {b} |-> IF n = b THEN best ELSE cost[n]],
          ok |-> ~star \/ ((\A n \in nodes \ tried : ~cheaper(n) \/ ~near(n)) /\ (\A n \in tried \ {steer.from} : ~far(n)))]
\* connections tried for the point under way
Tried(a, b) == star /\ steer.new # 0 /\ b = steer.new /\ samples = {} /\ a \in nodes
Try == /\ Is("conn") /\ Tried(E.a, E.b)
       /\ Check("length of the connection", Abs(E.len - Path(E.a, E.b)) <= Tol)
       /\ cand' = cand \cup { <<E.a, E.len, 0>> }
       /\ UNCHANGED <<star, corner, xy, run, nodes, adm, cost, samples, steer, iters, sol>>
TryValid == /\ Is("valid") /\ Tried(E.a, E.b) /\ \E c \in cand : c[1] = E.a
            /\ cand' = { IF c[1] = E.a THEN <<c[1], c[2], IF E.ok THEN 1 ELSE 2>> ELSE c : c \in cand }
            /\ UNCHANGED <<star, corner, xy, run, nodes, adm, cost, samples, steer, iters, sol>>
\* a step from the nearest node towards a sample or the goal
Step == /\ Is("conn") /\ ~Tried(E.a, E.b)
        /\ LET t == TLCEval(Closed) IN
           /\ Check("best of the near nodes is the parent", t.ok)
           /\ Check("the search goes on only until the goal or a limit is reached", (sol = 0 \/ Maybe(sol)) /\ iters < run.iters /\ Cardinality(t.nodes) < run.nodes)
           /\ Check("step towards a sample or the goal", E.b = run.goal \/ E.b \in samples)
           /\ Check("step from the tree", E.a \in t.nodes)
           /\ Check("step from the nearest node", Sqrt(Sq(E.a, E.b)) <= Sqrt(MinSet({ Sq(n, E.b) : n \in t.nodes })) + Tol)
           /\ nodes' = t.nodes /\ adm' = t.adm /\ cost' = t.cost
        /\ steer' = [from |-> E.a, to |-> E.b, new |-> 0, len |-> E.len] /\ cand' = {} /\ samples' = {} /\ iters' = iters + 1 /\ sol' = 0
        /\ UNCHANGED <<star, corner, xy, run>>
StepValid == /\ Is("valid") /\ ~(Tried(E.a, E.b) /\ \E c \in cand : c[1] = E.a)
             /\ LET d == Path(E.a, E.b) full == Path(E.a, steer.to) IN
                /\ Check("the path checked is that of the step", E.a = steer.from /\ steer.new = 0)
                /\ Check("length of a step", Abs(d - Min2(run.dist, full)) <= Tol)
                /\ Check("direction of a step", /\ d + Path(E.b, steer.to) <= full + Tol
                      /\ corner => Abs(xy[E.b][2] - xy[E.a][2]) <= Tol \/ Abs(xy[E.b][1] - xy[steer.to][1]) <= Tol)
                /\ Check("a close sample is reached exactly", full + Tol < run.dist => E.b = steer.to)
                /\ IF E.ok THEN steer' = [steer EXCEPT !.new = E.b, !.len = d] /\ sol' = (IF InGoal(E.b) THEN E.b ELSE 0)
                   ELSE UNCHANGED <<steer, sol>>
             /\ UNCHANGED <<star, corner, xy, run, nodes, adm, cost, samples, cand, iters>>
Done == /\ Is("done")
        /\ LET t == TLCEval(Closed) p == E.path IN
           /\ Check("best of the near nodes is the parent", t.ok)
           /\ Check("success exactly when the goal was reached", E.ok = (sol # 0) \/ Maybe(sol))
           /\ Check("gives up only at a limit", E.ok \/ iters = run.iters \/ Cardinality(t.nodes) = run.nodes)
           /\ Check("limits", iters <= run.iters /\ Cardinality(t.nodes) <= Max2(1, run.nodes))
           /\ Check("no path on failure", E.ok \/ p = <<>>)
           /\ Check("ends of the path", E.ok => p[1] = run.init /\ p[Len(p)] = sol /\ InGoal(sol))
           /\ Check("path follows the tree", E.ok => \A i \in 2..Len(p) : p[i] \in t.nodes /\ p[i - 1] \in t.adm[p[i]])
           /\ Check("start and goal kept", E.kept)
        /\ UNCHANGED <<star, corner, xy, run, nodes, adm, cost, samples, steer, cand, iters, sol>>
TraceInit == /\ l = 1 /\ star = FALSE /\ corner = FALSE /\ xy = <<>> /\ run = [init |-> 0] /\ nodes = {} /\ adm = <<>> /\ cost = <<>>
             /\ samples = {} /\ steer = None /\ cand = {} /\ iters = 0 /\ sol = 0
TraceNext == Case \/ Pt \/ Start \/ Sample \/ Try \/ TryValid \/ Step \/ StepValid \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
