SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  PerThread = 2
  Sessions = 2
INVARIANTS WellFormed Prefix
CHECK_DEADLOCK FALSE
