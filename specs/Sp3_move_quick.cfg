INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "move"
  MaxLen = 1
  Depth = 4
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
