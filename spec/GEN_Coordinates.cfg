SPECIFICATION GenSpec
CONSTANTS
  DX = 3
  DY = 4
INVARIANT GenOut
CHECK_DEADLOCK FALSE
