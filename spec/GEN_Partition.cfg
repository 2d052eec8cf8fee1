SPECIFICATION GenSpec
CONSTANTS
  XS = {1, 2, 3}
  YS = {2}
  KS = {1, 2, 3}
  MergeExtra = 0
INVARIANTS GenOut
CHECK_DEADLOCK FALSE
