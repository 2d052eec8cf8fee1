SPECIFICATION GenSpec
CONSTANTS
  XS = {1, 2, 3, 4}
  YS = {1, 2, 3, 5}
  TS = {1, 3, 4}
  MaxHeap = 20
  Depth = 9
  OpNames = {"isub", "rsub", "sub", "cluster", "reps", "repp", "fser", "descale", "disk", "pickle", "scale"}
  Prefix <- PrefixScale
CHECK_DEADLOCK FALSE
