SPECIFICATION Spec
CONSTANTS
  R = 3
  K = 4
INVARIANTS Settled Explored Consistent Line
CHECK_DEADLOCK FALSE
