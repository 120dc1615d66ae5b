SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3, 4, 5} Epochs = 2
INVARIANTS One Constructed Unique
PROPERTY Everyone
CHECK_DEADLOCK FALSE
