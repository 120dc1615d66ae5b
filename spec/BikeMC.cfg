SPECIFICATION Spec
CONSTANTS Half = 1 B = 2 Steps = 7
INVARIANTS Recover Circle Reversible Full
CHECK_DEADLOCK FALSE
