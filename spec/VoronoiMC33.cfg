SPECIFICATION Spec
CONSTANTS R = 3
 C = 3
 Labels = {0, 1}
INVARIANTS EdgesAreFree EdgesBetween Complete OneObstacle
CHECK_DEADLOCK FALSE
