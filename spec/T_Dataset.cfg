SPECIFICATION TraceSpec
CONSTANTS
  TStart <- XStart
  TStep <- XStep
  FIRST = 1979
  LAST = 2015
  DYEARS = {}
  DEPTH = 0
CHECK_DEADLOCK FALSE
