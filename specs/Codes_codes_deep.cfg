INIT MCInit
NEXT MCNext
CONSTANTS Regs = {1, 2}
  Scope = "codes"
  Deep = TRUE
  Depth = 6
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Bijection RoundTrip EqReflexive EqSymmetric EqTransitive EqRespectsFreq
CHECK_DEADLOCK FALSE
