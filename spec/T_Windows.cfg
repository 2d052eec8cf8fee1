SPECIFICATION TraceSpec
CONSTANTS
  TStart <- WStart
  TStep <- WStep
  VALS = {0}
  MAXLEN = 1
  MAXWIN = 1
CHECK_DEADLOCK FALSE
