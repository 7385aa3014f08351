INIT MCInit
NEXT MCNext
CONSTANTS
  Scope = "hist"
  Deep = TRUE
  Depth = 4
ACTION_CONSTRAINT Emit
INVARIANTS Covariance
PROPERTIES Order Predicted Certain
CHECK_DEADLOCK FALSE
