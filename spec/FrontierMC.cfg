SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Prios = {0, 1, 2}
  MaxLen = 5
INVARIANTS Unique Sorted Same StepOK
CHECK_DEADLOCK FALSE
