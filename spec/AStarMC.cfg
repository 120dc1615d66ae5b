SPECIFICATION Spec
CONSTANTS
  Nodes = 3
  Costs = {0, 2}
  HMax = 2
INVARIANTS Optimal Sound Once Lean
CHECK_DEADLOCK FALSE
