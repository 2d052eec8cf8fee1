SPECIFICATION TraceSpec
CONSTANTS TStart <- XStart
 TStep <- XStep
 POINTS = {}
 SETTINGS = {}
 CLUSTERS = {}
 TARGETS = {}
 ASKS = 0
 MOVES = 0
 BIND = "each"
 KEEP = "nothing"
CHECK_DEADLOCK FALSE
