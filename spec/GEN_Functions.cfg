SPECIFICATION GenSpec
CONSTANTS
  XS = {1, 2, 3, 4}
  YS = {1, 2, 3, 5}
  TS = {1, 3, 4}
  MaxHeap = 20
  Depth = 9
  OpNames = {"fsca", "fser", "cluster", "extrema", "errreg", "isub", "rsub", "scale", "descale", "fsca", "fser", "extrema"}
  Prefix <- PrefixCluster
CHECK_DEADLOCK FALSE
