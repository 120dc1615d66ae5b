SPECIFICATION Spec
CONSTANTS
  N = 4
  OwnCell = TRUE
INVARIANTS InvClosed InvShot InvCell InvFail InvCost Bounded
CHECK_DEADLOCK FALSE
