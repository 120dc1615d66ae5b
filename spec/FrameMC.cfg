SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS Covers Corner NotBigger
PROPERTY Invariant
CHECK_DEADLOCK FALSE
