INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "move"
  MaxLen = 2
  Depth = 5
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
