SPECIFICATION Spec
CONSTANTS
  R = 3
  K = 3
INVARIANTS Settled Explored Consistent Line
CHECK_DEADLOCK FALSE
