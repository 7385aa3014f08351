INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "epo"
  MaxLen = 2
  Depth = 6
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK MapSound
CHECK_DEADLOCK FALSE
