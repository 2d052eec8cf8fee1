SPECIFICATION TraceSpec
CONSTANTS
  TStart <- XStart
  TStep <- XStep
  HOMES = {"a", "b"}
  REGIONS = {"r", "s"}
  DISTS = {"dtw", "w1"}
  KS = {2, 12}
  SEEDS = {1, 2}
  MODES = {"lite"}
  INITS <- MCInits
  DEPTH = 2

CHECK_DEADLOCK FALSE
