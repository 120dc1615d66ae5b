SPECIFICATION Spec
CONSTANTS R = 2
 C = 4
 Ops = 4
INVARIANT Exact
CHECK_DEADLOCK FALSE
