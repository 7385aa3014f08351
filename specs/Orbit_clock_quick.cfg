INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "clock"
  Deep = FALSE
  Depth = 2
ACTION_CONSTRAINT Emit
INVARIANTS Bound Distances
CHECK_DEADLOCK FALSE
