INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "val"
  MaxLen = 3
  Depth = 2
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK SlotsSound ToeSound
CHECK_DEADLOCK FALSE
