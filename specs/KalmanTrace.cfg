SPECIFICATION TSpec
INVARIANTS Covariance
CHECK_DEADLOCK FALSE
