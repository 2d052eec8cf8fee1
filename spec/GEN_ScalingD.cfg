SPECIFICATION GenSpec
CONSTANTS
  XS = {1, 2, 3, 4}
  YS = {1, 2, 3, 5}
  TS = {1, 3, 4}
  MaxHeap = 20
  Depth = 7
  OpNames = {"isub", "rsub", "sub", "cluster", "reps", "repp", "fser", "descale", "disk", "pickle", "scale"}
  Prefix <- PrefixClusterScale
CHECK_DEADLOCK FALSE
