INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "dec"
  MaxLen = 1
  Depth = 5
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK SlotsSound ToeSound
CHECK_DEADLOCK FALSE
