SPECIFICATION TraceSpec
CONSTANTS
  TStart <- RStart
  TStep <- RStep
  MAXAXIS = 1
CHECK_DEADLOCK FALSE
