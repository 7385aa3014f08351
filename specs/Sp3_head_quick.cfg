INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "head"
  MaxLen = 1
  Depth = 3
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
