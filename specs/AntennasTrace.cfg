SPECIFICATION TSpec
CONSTANT Regs = {1, 2, 3}
INVARIANTS NamesAre20 RadomeSet Symmetric SameImpliesModel ReflexiveIffSerial SatAntBounded CosparShape
CHECK_DEADLOCK FALSE
