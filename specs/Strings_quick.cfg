INIT MCInit
NEXT MCNext
CONSTANTS MaxLen = 4
  Deep = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TrimIsPrefix
CHECK_DEADLOCK FALSE
