SPECIFICATION TraceSpec
CONSTANTS
  TStart <- PStart
  TStep <- PStep
  XS = {}
  YS = {}
  KS = {}
  MergeExtra = 0
CHECK_DEADLOCK FALSE
