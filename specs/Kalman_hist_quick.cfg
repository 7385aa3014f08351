INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "hist"
  Deep = FALSE
  Depth = 3
ACTION_CONSTRAINT Emit
INVARIANTS Covariance
PROPERTIES Order Predicted Certain
CHECK_DEADLOCK FALSE
