SPECIFICATION DSpec
CONSTANTS
  DX = 1
  DY = 3
  DVALS = {0, 1, 3}
  DWEIGHT = 2
INVARIANTS RealMatches WeightsAtMostOnce NoInvention ComputedSane CentroidSane IntraSane
CHECK_DEADLOCK FALSE
