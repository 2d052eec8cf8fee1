SPECIFICATION TraceSpec
CONSTANTS
  TStart <- XStart
  TStep <- XStep
  N = 2
  L = 2
  MaxV = 1
  FailMods = {3}
  RefitKinds = {1}
CHECK_DEADLOCK FALSE
