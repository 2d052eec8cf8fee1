SPECIFICATION TraceSpec
CONSTANTS
  TStart <- XStart
  TStep <- XStep
  KVALS = {2, 3, 5, 9}
  SEEDS = {0, 1}
  COSTS = {0, 1, 5}

CHECK_DEADLOCK FALSE
