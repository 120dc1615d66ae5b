SPECIFICATION Spec
CONSTANT Max = 5
INVARIANTS Forest Partition DepthOK
PROPERTY Rewire
CHECK_DEADLOCK FALSE
