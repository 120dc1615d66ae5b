SPECIFICATION Spec
CONSTANT Max = 4
INVARIANTS Forest Partition DepthOK
PROPERTY Rewire
CHECK_DEADLOCK FALSE
