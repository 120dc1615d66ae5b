SPECIFICATION Spec
CONSTANTS
    MaxSide = 3
    MaxN = 12
INVARIANT Inv
CHECK_DEADLOCK FALSE
