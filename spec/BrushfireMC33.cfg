SPECIFICATION Spec
CONSTANTS R = 3
 C = 3
 Ops = 3
INVARIANT Exact
CHECK_DEADLOCK FALSE
