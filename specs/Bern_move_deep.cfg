INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "move"
  MaxLen = 2
  Depth = 4
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Sound
CHECK_DEADLOCK FALSE
