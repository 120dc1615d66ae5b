SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS OnTheLine Complete Gapless
CHECK_DEADLOCK FALSE
