SPECIFICATION Spec
CONSTANT Objs = {1, 2, 3, 4, 5}
INVARIANTS NoDangling AliveKept NoLeak CalledLive
CHECK_DEADLOCK FALSE
