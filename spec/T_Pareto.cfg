SPECIFICATION TraceSpec
CONSTANTS TStart <- XStart
 TStep <- XStep
 MODELS = 0
 TIMES = {}
 ERRORS = {}
 STEPS = 0
 SkipUndefined = TRUE
 OwnCost = TRUE
CHECK_DEADLOCK FALSE
