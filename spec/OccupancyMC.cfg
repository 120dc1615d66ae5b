SPECIFICATION Spec
CONSTANTS Obs = {1, 2, 3}
 NCells = 2
INVARIANTS GridIsLegal LabelsDistinct
CHECK_DEADLOCK FALSE
