SPECIFICATION Spec
CONSTANTS
  XS = {2}
  YS = {2}
  TS = {2}
  MaxHeap = 4
  Prefix <- PrefixNone
  Depth = 3
  OpNames = {"isub", "rsub", "sub", "cluster", "repp", "fsca", "fser", "scale", "descale", "extrema"}
INVARIANTS TypeOK ScalingReversible ScaledInUnit ViewStable ExtremaMembers
PROPERTY Immutable
VIEW HeapView
CHECK_DEADLOCK FALSE
