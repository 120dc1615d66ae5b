SPECIFICATION Spec
CONSTANTS
  N = 3
  OwnCell = TRUE
INVARIANTS InvClosed InvShot InvCell InvFail InvCost Bounded
PROPERTIES Ends
CHECK_DEADLOCK FALSE
