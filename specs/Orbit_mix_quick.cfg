INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "mix"
  Deep = FALSE
  Depth = 4
ACTION_CONSTRAINT Emit
INVARIANTS Bound Distances
CHECK_DEADLOCK FALSE
