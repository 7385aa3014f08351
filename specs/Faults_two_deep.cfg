INIT MCInit
NEXT MCNext
CONSTANTS
  Fills = {2}
  Chars = {1, 3}
  Lines = {0}
  Step = 24
  FillChars = {}
  Depth = 2
ACTION_CONSTRAINT Emit
INVARIANTS LenOK
CHECK_DEADLOCK FALSE
