SPECIFICATION Spec
CONSTANT W = 1
INVARIANTS Inside Once Kept Closest
CHECK_DEADLOCK FALSE
