SPECIFICATION Spec
CONSTANTS
  KVALS = {2, 3, 5, 9}
  SEEDS = {0, 1}
  COSTS = {0, 1, 3, 8}
INVARIANTS ElbowIsLargest Interior Shift
CHECK_DEADLOCK FALSE
