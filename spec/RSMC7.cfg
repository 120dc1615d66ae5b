SPECIFICATION Spec
CONSTANTS Half = 5
 MaxMotions = 7
INVARIANTS ReflectEnd TimeflipEnd BackEnd Involutive Bound Straighter
CHECK_DEADLOCK FALSE
