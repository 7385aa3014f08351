INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "harm"
  Deep = FALSE
  Depth = 2
ACTION_CONSTRAINT Emit
INVARIANTS Bound Distances
CHECK_DEADLOCK FALSE
