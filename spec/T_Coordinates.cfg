SPECIFICATION TraceSpec
CONSTANTS
  TStart <- CStart
  TStep <- CStep
  DX = 1
  DY = 1
CHECK_DEADLOCK FALSE
