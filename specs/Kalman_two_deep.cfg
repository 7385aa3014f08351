INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "two"
  Deep = TRUE
  Depth = 5
ACTION_CONSTRAINT Emit
INVARIANTS Covariance
PROPERTIES Order Predicted Certain
CHECK_DEADLOCK FALSE
