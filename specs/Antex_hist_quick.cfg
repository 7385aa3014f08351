INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "hist"
  MaxLen = 0
  Depth = 3
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK ReceiverSound SatelliteSound BadUnseen
CHECK_DEADLOCK FALSE
