SPECIFICATION Spec
CONSTANTS MaxLen = 2
 MaxSegs = 2
INVARIANTS TypeOK Same SameCusps Inside Twice Prefix Directed
CHECK_DEADLOCK FALSE
