SPECIFICATION Spec
CONSTANTS Cells = 5
 Res = 3
INVARIANTS Accepted Rejected AllValid
CHECK_DEADLOCK FALSE
