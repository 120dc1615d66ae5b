SPECIFICATION Spec
CONSTANT W = 2
INVARIANTS Inside Once Kept Closest
CHECK_DEADLOCK FALSE
