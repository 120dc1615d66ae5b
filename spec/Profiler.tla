------------------------------- MODULE Profiler -------------------------------
(* The profile of a session: what each thread has measured, and what the file    *)
(* must contain.  Names are sequences of character codes.                        *)
EXTENDS Integers, Sequences
\* "__cdecl " is left out of the name of a scope, and a double quote becomes a single one
Cdecl == <<95, 95, 99, 100, 101, 99, 108, 32>>
RECURSIVE Clean(_)
Clean(s) ==
    IF s = <<>> THEN <<>>
    ELSE IF Len(s) >= Len(Cdecl) /\ SubSeq(s, 1, Len(Cdecl)) = Cdecl THEN Clean(SubSeq(s, Len(Cdecl) + 1, Len(s)))
    ELSE <<IF s[1] = 34 THEN 39 ELSE s[1]>> \o Clean(SubSeq(s, 2, Len(s)))

\* the events of one thread in the file, in their order
Of(file, t) == SelectSeq(file, LAMBDA e : e.th = t)
\* the file has the events of every thread in the order the thread finished them, and no other
Complete(file, done, threads, Same(_, _)) ==
    /\ \A i \in 1..Len(file) : file[i].th \in threads
    /\ \A t \in threads :
          LET f == Of(file, t) IN
          /\ Len(f) = Len(done[t])
          /\ \A i \in 1..Len(f) : Same(f[i], done[t][i])
=============================================================================
