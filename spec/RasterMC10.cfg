SPECIFICATION Spec
CONSTANT N = 10
INVARIANTS OnTheLine Complete Gapless
CHECK_DEADLOCK FALSE
