INIT MCInit
NEXT MCNext
CONSTANTS
  Fills = {0, 1, 2, 3}
  Chars = {0, 1, 2, 3, 4, 6}
  Lines = {0, 1, 2, 3}
  Step = 4
  FillChars = {0, 1, 2, 9}
  Depth = 1
ACTION_CONSTRAINT Emit
INVARIANTS LenOK
CHECK_DEADLOCK FALSE
