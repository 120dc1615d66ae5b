SPECIFICATION Spec
CONSTANTS MaxLen = 1
 MaxSegs = 3
INVARIANTS TypeOK Same SameCusps Inside Twice Prefix Directed
CHECK_DEADLOCK FALSE
