---------------------------- MODULE SingletonTrace ----------------------------
(* Singletons: histories of one thread (init, get, release), and of several       *)
(* threads (ask, ctor, made, got, gone, released), in the order of the events.    *)
EXTENDS Common
VARIABLES l, kind, cur, made, building, ready
vars == <<l, kind, cur, made, building, ready>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Case == Is("case") /\ kind' = E.kind /\ cur' = 0 /\ made' = 0 /\ building' = 0 /\ ready' = 0
\* one thread: cur is the living instance
Alive(n) == IF n = 0 THEN 0 ELSE 1
Init1 == /\ Is("init")
         /\ made' = (IF cur = 0 THEN made + 1 ELSE made) /\ cur' = (IF cur = 0 THEN made + 1 ELSE cur)
         /\ Check("created once", E.alive = 1 /\ E.made = made')
         /\ UNCHANGED <<kind, building, ready>>
Get == /\ Is("get")
       /\ made' = (IF cur = 0 THEN made + 1 ELSE made) /\ cur' = (IF cur = 0 THEN made + 1 ELSE cur)
       /\ Check("the instance", E.no = cur' /\ E.same)
       /\ Check("created once", E.alive = 1 /\ E.made = made')
       /\ UNCHANGED <<kind, building, ready>>
Release == /\ Is("release") /\ Check("released", E.alive = 0 /\ E.made = made) /\ cur' = 0 /\ UNCHANGED <<kind, made, building, ready>>
\* several threads
Ask == Is("ask") /\ UNCHANGED <<kind, cur, made, building, ready>>
CtorE == /\ Is("ctor") /\ Check("one instance at a time", cur = 0 /\ building = 0 /\ ready = 0) /\ building' = E.no /\ made' = made + 1
         /\ Check("asked for by a thread", E.th > 0) /\ UNCHANGED <<kind, cur, ready>>
MadeE == Is("made") /\ Check("the one under construction", building = E.no) /\ building' = 0 /\ ready' = E.no /\ UNCHANGED <<kind, cur, made>>
Got == /\ Is("got") /\ Check("constructed before it is used", E.ready /\ building = 0 /\ ready = E.no)
       /\ Check("the same instance for all threads", cur \in {0, E.no}) /\ cur' = E.no /\ UNCHANGED <<kind, made, building, ready>>
Gone == Is("gone") /\ Check("deleted by release only", E.th = 0 /\ ready = E.no) /\ cur' = 0 /\ ready' = 0 /\ UNCHANGED <<kind, made, building>>
Released == Is("released") /\ Check("release deletes the instance", cur = 0 /\ ready = 0) /\ UNCHANGED <<kind, cur, made, building, ready>>
TraceInit == l = 1 /\ kind = "" /\ cur = 0 /\ made = 0 /\ building = 0 /\ ready = 0
TraceNext == Case \/ Init1 \/ Get \/ Release \/ Ask \/ CtorE \/ MadeE \/ Got \/ Gone \/ Released
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
