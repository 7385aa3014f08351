INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "seq"
  MaxLen = 3
  Depth = 5
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
