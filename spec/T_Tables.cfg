SPECIFICATION TraceSpec
CONSTANTS TStart <- XStart
 TStep <- XStep
 PLACES = {}
 KS = {}
 SEEDS = {}
 CELLS = {}
 STEPS = 0
 SHARED = FALSE
CHECK_DEADLOCK FALSE
