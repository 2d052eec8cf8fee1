SPECIFICATION DSpec
CONSTANTS
  DX = 4
  DY = 1
  DVALS = {0, 1, 3, 4}
  DWEIGHT = 2
INVARIANTS RealMatches WeightsAtMostOnce NoInvention ComputedSane CentroidSane IntraSane
CHECK_DEADLOCK FALSE
