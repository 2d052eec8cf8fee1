SPECIFICATION Spec
CONSTANTS
  VALS = {0, 2}
  MAXLEN = 3
  MAXWIN = 1
INVARIANTS DTWSane KNNSane
CHECK_DEADLOCK FALSE
