SPECIFICATION TraceSpec
CONSTANTS
  TStart <- XStart
  TStep <- XStep
  KN = 1
  KK = 1
  KVALS = {}
  KTOL10 = 0
CHECK_DEADLOCK FALSE
