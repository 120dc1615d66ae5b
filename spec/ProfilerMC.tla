------------------------------ MODULE ProfilerMC ------------------------------
(* Design model of the profiler: threads write their results in pieces to a       *)
(* buffered file under a lock, while the session is begun and ended; the process  *)
(* may stop at any point, which leaves what was flushed.                          *)
EXTENDS Profiler, FiniteSets, TLC
CONSTANTS Threads, PerThread, Sessions
VARIABLES pc, lock, count, buffer, disk, state, session, done
\* a piece of the document: "[" header, "]" footer, <<thread, number, half>>
vars == <<pc, lock, count, buffer, disk, state, session, done>>
Init == /\ pc = [t \in Threads |-> "idle"] /\ lock = 0 /\ count = [t \in Threads |-> 0] /\ buffer = <<>> /\ disk = <<>> /\ state = "closed" /\ session = 0
        /\ done = [t \in Threads |-> <<>>]
Set(t, s) == pc' = [pc EXCEPT ![t] = s]
Half(t, h) == [th |-> t, no |-> count[t], half |-> h]
Header == [th |-> 0, no |-> 0, half |-> 1]
Footer == [th |-> 0, no |-> 0, half |-> 2]
\* the main thread: begins a session, and ends it while no scope is running
Begin == /\ state = "closed" /\ session < Sessions /\ lock = 0 /\ session' = session + 1 /\ state' = "open" /\ disk' = <<Header>> /\ buffer' = <<>>
         /\ done' = [t \in Threads |-> <<>>] /\ UNCHANGED <<pc, lock, count>>
End == /\ state = "open" /\ lock = 0 /\ (\A t \in Threads : pc[t] = "idle") /\ disk' = disk \o <<Footer>> /\ state' = "closed" /\ UNCHANGED <<pc, lock, count, buffer, session, done>>
\* a thread finishes a scope and writes it
Start(t) == state = "open" /\ pc[t] = "idle" /\ count[t] < PerThread /\ count' = [count EXCEPT ![t] = @ + 1] /\ Set(t, "wait") /\ UNCHANGED <<lock, buffer, disk, state, session, done>>
Lock(t) == pc[t] = "wait" /\ lock = 0 /\ lock' = t /\ Set(t, "first") /\ UNCHANGED <<count, buffer, disk, state, session, done>>
First(t) == pc[t] = "first" /\ buffer' = Append(buffer, Half(t, 1)) /\ Set(t, "second") /\ UNCHANGED <<lock, count, disk, state, session, done>>
Second(t) == pc[t] = "second" /\ buffer' = Append(buffer, Half(t, 2)) /\ Set(t, "flush") /\ UNCHANGED <<lock, count, disk, state, session, done>>
\* the stream may write part of its buffer at any time
Spill(t) == pc[t] \in {"second", "flush"} /\ buffer /= <<>> /\ disk' = Append(disk, Head(buffer)) /\ buffer' = Tail(buffer) /\ UNCHANGED <<pc, lock, count, state, session, done>>
Flush(t) == pc[t] = "flush" /\ disk' = disk \o buffer /\ buffer' = <<>> /\ Set(t, "unlock") /\ done' = [done EXCEPT ![t] = Append(@, count[t])] /\ UNCHANGED <<lock, count, state, session>>
Unlock(t) == pc[t] = "unlock" /\ lock' = 0 /\ Set(t, "idle") /\ UNCHANGED <<count, buffer, disk, state, session, done>>
Next == Begin \/ End \/ \E t \in Threads : Start(t) \/ Lock(t) \/ First(t) \/ Second(t) \/ Spill(t) \/ Flush(t) \/ Unlock(t)
Spec == Init /\ [][Next]_vars
\* a document: header, whole results, and the footer if the session is over
Events(d) == LET body == SelectSeq(d, LAMBDA p : p.th /= 0 /\ p.half = 1) IN body
Whole(d) == \A i \in 2..Len(d) : (d[i].th /= 0 /\ d[i].half = 1) => (i < Len(d) /\ d[i + 1] = [d[i] EXCEPT !.half = 2])
Pairs(d) == Len(SelectSeq(d, LAMBDA p : p.th /= 0 /\ p.half = 2)) = Len(Events(d))
WellFormed == (session > 0 /\ (lock = 0 \/ pc[lock] = "unlock")) =>
    /\ disk[1] = Header /\ Whole(disk) /\ Pairs(disk) /\ buffer = <<>>
    /\ (\A i \in 2..Len(disk) : disk[i] = Footer => i = Len(disk)) /\ ((state = "closed") <=> disk[Len(disk)] = Footer)
    /\ Complete(Events(disk), done, Threads, LAMBDA f, n : f.no = n)
\* at any other point a result that was not flushed yet is at most incomplete at the end
Prefix == session > 0 => \A i \in 2..(Len(disk) - 1) : (disk[i].th /= 0 /\ disk[i].half = 1) => disk[i + 1] = [disk[i] EXCEPT !.half = 2]
=============================================================================
