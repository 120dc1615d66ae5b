SPECIFICATION Spec
CONSTANTS R = 2
 C = 4
 Labels = {0, 1}
INVARIANTS EdgesAreFree EdgesBetween Complete OneObstacle
CHECK_DEADLOCK FALSE
