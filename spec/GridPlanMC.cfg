SPECIFICATION Spec
CONSTANTS
  R = 3
  K = 3
  MaxCost = 8
INVARIANTS Free LowerBound Reversible Fixpoint
CHECK_DEADLOCK FALSE
