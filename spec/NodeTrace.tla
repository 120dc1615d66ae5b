------------------------------ MODULE NodeTrace ------------------------------
(* Histories of the node hierarchy: every node is dumped after every operation. *)
EXTENDS Hierarchy, Common
VARIABLES l, par
vars == <<l, par>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Case == Is("case") /\ par' = << >>
New == Is("new") /\ par' = NewNode(par, E.c)
Add == Is("add") /\ Check("the added node is the child", E.same) /\ par' = Adopt(par, E.p, E.c)
Remove == Is("remove") /\ Check("the removed node is handed over", E.same) /\ par' = Detach(par, E.c)
Repl == Is("replace") /\ Check("the replaced node is handed over", E.same) /\ par' = Replace(par, E.b, E.c, E.adopt)
Move == /\ Is("reparent") /\ par' = Reparent(par, E.c, E.p)
        /\ Check("root after rewiring", E.root \in Roots(par') /\ E.c \in Sub(par', E.root))
DropN == Is("drop") /\ par' = Drop(par, E.c)
\* st: id, id read from the node, parent, depth, previous, next, first, children...
Children(v) == SubSeq(v, 8, Len(v))
RECURSIVE PreOf(_, _), PostOf(_, _), PreSeq(_, _), PostSeq(_, _)
PreOf(ch, n) == <<n>> \o PreSeq(ch, ch[n])
PreSeq(ch, s) == IF s = <<>> THEN <<>> ELSE PreOf(ch, Head(s)) \o PreSeq(ch, Tail(s))
PostOf(ch, n) == PostSeq(ch, ch[n]) \o <<n>>
PostSeq(ch, s) == IF s = <<>> THEN <<>> ELSE PostOf(ch, Head(s)) \o PostSeq(ch, Tail(s))
Dump ==
    /\ Is("dump")
    /\ LET st == E.st
           ch == [n \in { st[i][1] : i \in DOMAIN st } |-> Children(st[CHOOSE i \in DOMAIN st : st[i][1] = n])] IN
       /\ Check("no node is lost", DOMAIN ch = DOMAIN par /\ E.live = Len(st))
       /\ Check("data of a node", \A i \in DOMAIN st : st[i][2] = st[i][1])
       /\ Check("parent", \A i \in DOMAIN st : st[i][3] = par[st[i][1]])
       /\ Check("children", \A i \in DOMAIN st : LET c == Children(st[i]) IN Range(c) = Kids(par, st[i][1]) /\ Len(c) = Cardinality(Range(c)))
       /\ Check("depth", \A i \in DOMAIN st : st[i][4] = Depth(par, st[i][1]))
       /\ Check("siblings", \A i \in DOMAIN st :
              LET n == st[i][1] s == IF par[n] = 0 THEN <<n>> ELSE ch[par[n]] k == CHOOSE j \in DOMAIN s : s[j] = n IN
              /\ st[i][5] = (IF k = 1 THEN 0 ELSE s[k - 1])
              /\ st[i][6] = (IF k = Len(s) THEN 0 ELSE s[k + 1])
              /\ st[i][7] = (IF ch[n] = <<>> THEN 0 ELSE ch[n][1]))
       /\ Check("roots", { E.pre[i][1] : i \in DOMAIN E.pre } = Roots(par))
       /\ Check("pre-order", \A i \in DOMAIN E.pre : E.pre[i] = PreOf(ch, E.pre[i][1]))
       /\ Check("post-order", \A i \in DOMAIN E.post : E.post[i] = PostOf(ch, E.pre[i][1]))
       /\ Check("ancestors", \A i \in DOMAIN E.rel : LET r == E.rel[i] IN (r[3] = 1) = (r[2] \in Anc(par, r[1])) /\ (r[4] = 1) = (r[1] \in Anc(par, r[2])))
    /\ UNCHANGED par
Leave == Is("leave") /\ par' = << >>
End == Is("end") /\ Check("every node is deleted with its owner", E.live = 0) /\ UNCHANGED par
TraceInit == l = 1 /\ par = << >>
TraceNext == Case \/ New \/ Add \/ Remove \/ Repl \/ Move \/ DropN \/ Dump \/ Leave \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
