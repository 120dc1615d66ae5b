SPECIFICATION Spec
CONSTANTS N = 13
 MaxIt = 3
INVARIANTS InvScan InvFixed InvEnd
PROPERTY Stops
CHECK_DEADLOCK FALSE
