INIT MCInit
NEXT MCNext
CONSTANTS Regs = {1, 2}
  Scope = "letters"
  Deep = FALSE
  Depth = 1
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Bijection RoundTrip EqReflexive EqSymmetric EqTransitive EqRespectsFreq
CHECK_DEADLOCK FALSE
