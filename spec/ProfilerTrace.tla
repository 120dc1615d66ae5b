----------------------------- MODULE ProfilerTrace -----------------------------
(* Recorded sessions of the profiler: scopes and results of several threads       *)
(* ("work"), and the file as read while the session is open ("snap", the end of   *)
(* the document added) and after it was closed ("file").                          *)
EXTENDS Common, Profiler
VARIABLES l, open, blocked, threads, done, chars, clean
vars == <<l, open, blocked, threads, done, chars, clean>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
None == [t \in {} |-> <<>>]
Case == Is("case") /\ open' = FALSE /\ blocked' = E.blocked /\ threads' = 1..E.threads /\ done' = [t \in 1..E.threads |-> <<>>] /\ chars' = <<>> /\ clean' = <<>>
Name == /\ Is("name") /\ E.no = Len(chars) + 1 /\ chars' = Append(chars, E.chars) /\ clean' = Append(clean, Clean(E.chars))
        /\ UNCHANGED <<open, blocked, threads, done>>
\* beginning a session starts an empty file
Begin == Is("begin") /\ Check("one session at a time", ~open) /\ open' = TRUE /\ done' = [t \in threads |-> <<>>] /\ UNCHANGED <<blocked, threads, chars, clean>>
Work == Is("work") /\ open /\ done' = [done EXCEPT ![E.th] = @ \o E.done] /\ UNCHANGED <<open, blocked, threads, chars, clean>>
Slack == 50
SameEvent(f, d) ==
    /\ Check("fields of an event", f.keys)
    /\ Check("name of the scope", chars[f.name] = (IF d.exact THEN chars[d.name] ELSE clean[d.name]))
    /\ IF d.exact THEN Check("times of a result", f.ts = d.start /\ f.dur = d.dur)
       ELSE Check("duration of the scope", f.dur >= d.lo - Slack /\ f.dur <= d.hi + Slack)
\* scopes of a thread lie inside the ones around them, and follow the ones before them
Nested(f, d) ==
    \A i \in 1..Len(f) : ~d[i].exact =>
        /\ (d[i].outer > 0 /\ d[i].outer <= Len(d) /\ ~d[d[i].outer].exact) =>
              LET o == f[d[i].outer] IN o.ts <= f[i].ts + Slack /\ f[i].ts + f[i].dur <= o.ts + o.dur + Slack
        /\ \A j \in (i + 1)..Len(f) : (~d[j].exact /\ d[j].outer = d[i].outer) => f[i].ts + f[i].dur <= f[j].ts + Slack
Holds ==
    /\ Check("a well-formed document", E.ok)
    /\ Check("one event per scope, in order", Complete(E.evs, done, threads, SameEvent))
    /\ Check("times agree with the nesting of the scopes", \A t \in threads : Nested(Of(E.evs, t), done[t]))
Snap == Is("snap") /\ open /\ ~blocked /\ Holds /\ UNCHANGED <<open, blocked, threads, done, chars, clean>>
File == Is("file") /\ ~blocked /\ Holds /\ UNCHANGED <<open, blocked, threads, done, chars, clean>>
\* a file that cannot be opened: results are dropped
Nothing == Is("nothing") /\ blocked /\ UNCHANGED <<open, blocked, threads, done, chars, clean>>
End == Is("end") /\ open /\ open' = FALSE /\ UNCHANGED <<blocked, threads, done, chars, clean>>
TraceInit == l = 1 /\ open = FALSE /\ blocked = FALSE /\ threads = {} /\ done = None /\ chars = <<>> /\ clean = <<>>
TraceNext == Case \/ Name \/ Begin \/ Work \/ Snap \/ File \/ Nothing \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
