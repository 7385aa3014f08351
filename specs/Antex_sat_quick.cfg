INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "sat"
  MaxLen = 3
  Depth = 2
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK ReceiverSound SatelliteSound BadUnseen
CHECK_DEADLOCK FALSE
