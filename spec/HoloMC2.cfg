SPECIFICATION Spec
CONSTANTS
  Half = 5
  Steps = 4
  Fw = 2
  Rv = 1
INVARIANTS Bound Back Flip Line Home
CHECK_DEADLOCK FALSE
