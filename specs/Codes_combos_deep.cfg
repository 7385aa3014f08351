INIT MCInit
NEXT MCNext
CONSTANTS Regs = {1, 2}
  Scope = "combos"
  Deep = TRUE
  Depth = 8
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Bijection RoundTrip EqReflexive EqSymmetric EqTransitive EqRespectsFreq
CHECK_DEADLOCK FALSE
