SPECIFICATION Spec
CONSTANTS
  Nodes = 4
  Costs = {2}
  HMax = 2
INVARIANTS Optimal Sound Once Lean
CHECK_DEADLOCK FALSE
