SPECIFICATION GenSpec
CONSTANTS
  XS = {1, 2, 3, 4}
  YS = {1, 2, 3, 5}
  TS = {1, 3, 4}
  MaxHeap = 20
  Depth = 9
  OpNames = {"extrema", "fsca", "errreg", "cluster", "rsub", "repp"}
  Prefix <- PrefixScalar
CHECK_DEADLOCK FALSE
