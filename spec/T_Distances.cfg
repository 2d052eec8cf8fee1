SPECIFICATION TraceSpec
CONSTANTS
  TStart <- XStart
  TStep <- XStep
  DX = 1
  DY = 1
  DVALS = {}
  DWEIGHT = 0
CHECK_DEADLOCK FALSE
