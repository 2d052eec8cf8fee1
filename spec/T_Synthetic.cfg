SPECIFICATION TraceSpec
CONSTANTS TStart <- XStart
 TStep <- XStep
 KS = {}
 SEEDS = {}
 SIDE = 0
 NMEDOIDS = 0
 NROWS = 0
 STREAM = {}
 HEIGHTS = {}
 Within = TRUE
CHECK_DEADLOCK FALSE
