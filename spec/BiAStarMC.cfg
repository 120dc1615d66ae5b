SPECIFICATION Spec
CONSTANTS
  Nodes = 4
  Costs = {1, 3}
  OneWay = FALSE
INVARIANTS Optimal Sound
CHECK_DEADLOCK FALSE
