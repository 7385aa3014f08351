INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "one"
  Deep = FALSE
  Depth = 2
ACTION_CONSTRAINT Emit
INVARIANTS Covariance
PROPERTIES Order Predicted Certain
CHECK_DEADLOCK FALSE
