SPECIFICATION Spec
CONSTANTS
  Nodes = 3
  Costs = {0, 1, 3}
  OneWay = TRUE
INVARIANTS Optimal Sound
CHECK_DEADLOCK FALSE
