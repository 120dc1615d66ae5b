SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} Epochs = 2
INVARIANTS One Constructed Unique
PROPERTY Everyone
CHECK_DEADLOCK FALSE
