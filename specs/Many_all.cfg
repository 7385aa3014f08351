INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Independent
CHECK_DEADLOCK FALSE
