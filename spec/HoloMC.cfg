SPECIFICATION Spec
CONSTANTS
  Half = 5
  Steps = 4
  Fw = 1
  Rv = 3
INVARIANTS Bound Back Flip Line Home
CHECK_DEADLOCK FALSE
