INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "seq"
  MaxLen = 2
  Depth = 4
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
