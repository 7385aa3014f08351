INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "epo"
  MaxLen = 1
  Depth = 5
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK MapSound
CHECK_DEADLOCK FALSE
