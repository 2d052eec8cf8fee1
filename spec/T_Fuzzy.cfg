SPECIFICATION TraceSpec
CONSTANTS
  TStart <- XStart
  TStep <- XStep
  FN = 1
  FK = 1
  UNIT = 1
CHECK_DEADLOCK FALSE
