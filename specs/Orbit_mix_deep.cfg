INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "mix"
  Deep = TRUE
  Depth = 4
ACTION_CONSTRAINT Emit
INVARIANTS Bound Distances
CHECK_DEADLOCK FALSE
