INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "req"
  MaxLen = 1
  Depth = 2
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK MapSound
CHECK_DEADLOCK FALSE
