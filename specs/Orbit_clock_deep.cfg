INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "clock"
  Deep = TRUE
  Depth = 3
ACTION_CONSTRAINT Emit
INVARIANTS Bound Distances
CHECK_DEADLOCK FALSE
