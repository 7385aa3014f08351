INIT MCInit
NEXT MCNext
CONSTANTS Regs = {1, 2}
  Scope = "satant"
  Deep = FALSE
  Depth = 8
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NamesAre20 RadomeSet Symmetric SameImpliesModel ReflexiveIffSerial SatAntBounded CosparShape
CHECK_DEADLOCK FALSE
