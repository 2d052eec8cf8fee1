SPECIFICATION GenSpec
CONSTANTS
  XS = {1, 2, 3, 4}
  YS = {1, 2, 3, 5}
  TS = {1, 3, 4}
  MaxHeap = 20
  Depth = 9
  OpNames = {"isub", "rsub", "sub", "cluster", "reps", "repv", "repp", "fsca", "fser", "scale", "descale", "extrema", "pickle", "look", "errreg"}
  Prefix <- PrefixNone
CHECK_DEADLOCK FALSE
