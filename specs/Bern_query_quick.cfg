INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "query"
  MaxLen = 2
  Depth = 3
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Sound
CHECK_DEADLOCK FALSE
