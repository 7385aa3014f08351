INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "query"
  MaxLen = 3
  Depth = 3
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Sound
CHECK_DEADLOCK FALSE
