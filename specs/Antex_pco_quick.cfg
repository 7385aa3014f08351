INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "pco"
  MaxLen = 1
  Depth = 2
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK ReceiverSound SatelliteSound BadUnseen
CHECK_DEADLOCK FALSE
