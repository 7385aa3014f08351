SPECIFICATION TSpec
INVARIANTS Bound
CHECK_DEADLOCK FALSE
