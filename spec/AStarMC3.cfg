SPECIFICATION Spec
CONSTANTS
  Nodes = 3
  Costs = {0, 1, 3}
  HMax = 3
INVARIANTS Optimal Sound Once Lean
CHECK_DEADLOCK FALSE
