SPECIFICATION TSpec
INVARIANTS TypeOK Bound
CHECK_DEADLOCK FALSE
