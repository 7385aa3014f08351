INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "val"
  MaxLen = 0
  Depth = 3
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK MapSound
CHECK_DEADLOCK FALSE
