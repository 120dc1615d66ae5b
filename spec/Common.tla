------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Shared vocabulary of all trace specifications.                          *)
(*                                                                         *)
(* A conformance run records what the real C++ code did as one JSON object *)
(* per line (ndjson).  A trace specification walks the file with the       *)
(* counter `l`; line l must be explained by an action of the design        *)
(* specification, or the walk stops there and the trace is rejected by the *)
(* postcondition TraceAccepted.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* Check(name, cond): cond, with a diagnostic naming the broken clause.
Check(name, cond) ==
    IF cond THEN TRUE ELSE PrintT("BROKEN-CLAUSE " \o name) /\ FALSE

TraceAccepted ==
    LET n == TLCGet("stats").diameter - 1 IN
    IF n = Len(Trace)
    THEN PrintT("TRACE-ACCEPTED " \o ToString(n))
    ELSE PrintT("TRACE-REJECTED " \o ToString(n + 1)) /\ FALSE

Has(r, f) == f \in DOMAIN r

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(s) == { s[i] : i \in DOMAIN s }
\* "infinite" cost or distance, larger than any value that is logged
Inf == 2147483647
=============================================================================
