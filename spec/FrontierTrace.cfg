SPECIFICATION TraceSpec
INVARIANT Unique
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
