INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "all"
  Kinds = {0, 1, 2, 3, 4}
  Depth = 7
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Bound
CHECK_DEADLOCK FALSE
