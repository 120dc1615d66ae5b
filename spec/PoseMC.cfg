SPECIFICATION Spec
CONSTANTS W = 1 Steps = 2
INVARIANTS Inverse Identity Assoc Rigid
CHECK_DEADLOCK FALSE
