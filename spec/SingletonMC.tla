------------------------------ MODULE SingletonMC ------------------------------
(* Design model of the thread-safe singleton: every interleaving of threads that *)
(* ask for the instance by double-checked locking, over several epochs separated *)
(* by releases made while no thread uses the instance.                           *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, Epochs
VARIABLES pc, lock, ptr, made, ready, got, epoch, seen
\* ptr: published instance (0 none); made: number of instances constructed;
\* ready: instances whose constructor has finished; seen: instances returned
vars == <<pc, lock, ptr, made, ready, got, epoch, seen>>
Init == pc = [t \in Threads |-> "idle"] /\ lock = 0 /\ ptr = 0 /\ made = 0 /\ ready = {} /\ got = [t \in Threads |-> 0] /\ epoch = 1 /\ seen = {}
Set(t, s) == pc' = [pc EXCEPT ![t] = s]
Check1(t) == pc[t] = "idle" /\ Set(t, IF ptr = 0 THEN "wait" ELSE "ret") /\ UNCHANGED <<lock, ptr, made, ready, got, epoch, seen>>
Lock(t) == pc[t] = "wait" /\ lock = 0 /\ lock' = t /\ Set(t, "check2") /\ UNCHANGED <<ptr, made, ready, got, epoch, seen>>
Check2(t) == pc[t] = "check2" /\ Set(t, IF ptr = 0 THEN "new" ELSE "unlock") /\ UNCHANGED <<lock, ptr, made, ready, got, epoch, seen>>
New(t) == pc[t] = "new" /\ made' = made + 1 /\ got' = [got EXCEPT ![t] = made + 1] /\ Set(t, "ctor") /\ UNCHANGED <<lock, ptr, ready, epoch, seen>>
Ctor(t) == pc[t] = "ctor" /\ ready' = ready \cup {got[t]} /\ Set(t, "publish") /\ UNCHANGED <<lock, ptr, made, got, epoch, seen>>
Publish(t) == pc[t] = "publish" /\ ptr' = got[t] /\ Set(t, "unlock") /\ UNCHANGED <<lock, made, ready, got, epoch, seen>>
Unlock(t) == pc[t] = "unlock" /\ lock' = 0 /\ Set(t, "ret") /\ UNCHANGED <<ptr, made, ready, got, epoch, seen>>
Ret(t) == pc[t] = "ret" /\ got' = [got EXCEPT ![t] = ptr] /\ seen' = seen \cup {ptr} /\ Set(t, "done") /\ UNCHANGED <<lock, ptr, made, ready, epoch>>
Release == /\ \A t \in Threads : pc[t] = "done" /\ epoch < Epochs
           /\ ptr' = 0 /\ epoch' = epoch + 1 /\ seen' = {} /\ pc' = [t \in Threads |-> "idle"] /\ got' = [t \in Threads |-> 0] /\ UNCHANGED <<lock, made, ready>>
Step(t) == Check1(t) \/ Lock(t) \/ Check2(t) \/ New(t) \/ Ctor(t) \/ Publish(t) \/ Unlock(t) \/ Ret(t)
Next == (\E t \in Threads : Step(t)) \/ Release
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
One == made <= epoch
Constructed == seen \subseteq ready
Unique == Cardinality(seen) <= 1
Everyone == \A t \in Threads : pc[t] = "idle" ~> pc[t] = "done"
=============================================================================
