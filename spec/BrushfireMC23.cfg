SPECIFICATION Spec
CONSTANTS R = 2
 C = 3
 Ops = 4
INVARIANT Exact
CHECK_DEADLOCK FALSE
