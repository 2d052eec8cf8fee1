SPECIFICATION Spec
CONSTANTS
  VALS = {0, 1, 3}
  MAXLEN = 3
  MAXWIN = 1
INVARIANTS DTWSane KNNSane
CHECK_DEADLOCK FALSE
