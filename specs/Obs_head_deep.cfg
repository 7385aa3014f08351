INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "head"
  MaxLen = 0
  Depth = 3
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK MapSound
CHECK_DEADLOCK FALSE
