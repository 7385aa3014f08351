INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "req"
  MaxLen = 2
  Depth = 2
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK MapSound
CHECK_DEADLOCK FALSE
