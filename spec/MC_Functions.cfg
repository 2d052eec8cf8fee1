SPECIFICATION Spec
CONSTANTS
  XS = {2}
  YS = {2}
  TS = {3}
  MaxHeap = 4
  Prefix <- PrefixNone
  Depth = 3
  OpNames = {"cluster", "fsca", "fser", "scale", "descale", "extrema", "errreg"}
INVARIANTS TypeOK ScalingReversible ScaledInUnit ViewStable ExtremaMembers
PROPERTY Immutable
VIEW HeapView
CHECK_DEADLOCK FALSE
