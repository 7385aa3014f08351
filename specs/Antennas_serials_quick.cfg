INIT MCInit
NEXT MCNext
CONSTANTS Regs = {1, 2}
  Scope = "serials"
  Deep = FALSE
  Depth = 12
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NamesAre20 RadomeSet Symmetric SameImpliesModel ReflexiveIffSerial SatAntBounded CosparShape
CHECK_DEADLOCK FALSE
