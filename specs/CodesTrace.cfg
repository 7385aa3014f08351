SPECIFICATION TSpec
CONSTANT Regs = {1, 2, 3}
INVARIANTS Bijection RoundTrip EqReflexive EqSymmetric EqRespectsFreq
CHECK_DEADLOCK FALSE
