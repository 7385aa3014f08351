INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "move"
  MaxLen = 0
  Depth = 4
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK ReceiverSound SatelliteSound BadUnseen
CHECK_DEADLOCK FALSE
