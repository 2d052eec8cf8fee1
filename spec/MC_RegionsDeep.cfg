SPECIFICATION Spec
CONSTANTS
  XS = {1}
  YS = {2}
  TS = {3}
  MaxHeap = 5
  Prefix <- PrefixNone
  Depth = 4
  OpNames = {"isub", "rsub", "cluster", "fser", "scale", "descale", "extrema"}
INVARIANTS TypeOK ScalingReversible ScaledInUnit ViewStable ExtremaMembers
PROPERTY Immutable
VIEW HeapView
CHECK_DEADLOCK FALSE
