INIT MCInit
NEXT MCNext
CONSTANTS MaxLen = 6
  Deep = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TrimIsPrefix
CHECK_DEADLOCK FALSE
