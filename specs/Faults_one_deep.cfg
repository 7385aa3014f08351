INIT MCInit
NEXT MCNext
CONSTANTS
  Fills = {0, 1, 2, 3}
  Chars = {0, 1, 2, 3, 4, 6, 8, 10, 12, 14}
  Lines = {0, 1, 2, 3}
  Step = 1
  FillChars = {0, 1, 2, 3, 4, 9, 11, 12}
  Depth = 1
ACTION_CONSTRAINT Emit
INVARIANTS LenOK
CHECK_DEADLOCK FALSE
