INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "seq"
  MaxLen = 3
  Depth = 4
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK SlotsSound ToeSound
CHECK_DEADLOCK FALSE
