SPECIFICATION TraceSpec
CONSTANTS
  TStart <- RStart
  TStep <- RStep
  XS = {}
  YS = {}
  TS = {}
  MaxHeap = 0
  Prefix <- PrefixNone
  Depth = 0
  OpNames = {}
CHECK_DEADLOCK FALSE
