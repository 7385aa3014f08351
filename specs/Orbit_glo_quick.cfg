INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "glo"
  Deep = FALSE
  Depth = 2
ACTION_CONSTRAINT Emit
INVARIANTS Bound Distances
CHECK_DEADLOCK FALSE
