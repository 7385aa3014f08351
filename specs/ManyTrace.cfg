SPECIFICATION TSpec
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
