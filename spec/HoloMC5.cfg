SPECIFICATION Spec
CONSTANTS
  Half = 5
  Steps = 6
  Fw = 1
  Rv = 2
INVARIANTS Bound Back Flip Line Home
CHECK_DEADLOCK FALSE
