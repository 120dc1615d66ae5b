SPECIFICATION Spec
CONSTANTS R = 2
 C = 3
 Res = 2
INVARIANT OnObstacle
PROPERTY Monotone
CHECK_DEADLOCK FALSE
