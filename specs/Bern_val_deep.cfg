INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "val"
  MaxLen = 1
  Depth = 3
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Sound
CHECK_DEADLOCK FALSE
