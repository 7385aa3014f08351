INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "two"
  Deep = FALSE
  Depth = 4
ACTION_CONSTRAINT Emit
INVARIANTS Covariance
PROPERTIES Order Predicted Certain
CHECK_DEADLOCK FALSE
