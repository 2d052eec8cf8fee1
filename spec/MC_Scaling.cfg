SPECIFICATION Spec
CONSTANTS
  XS = {2}
  YS = {2}
  TS = {2}
  MaxHeap = 5
  Prefix <- PrefixNone
  Depth = 4
  OpNames = {"isub", "rsub", "cluster", "scale", "descale"}
INVARIANTS TypeOK ScalingReversible ScaledInUnit ViewStable ExtremaMembers
PROPERTY Immutable
VIEW HeapView
CHECK_DEADLOCK FALSE
