SPECIFICATION TraceSpec
CONSTANTS TStart <- XStart TStep <- XStep
SIZES <- Two VALUES = {1} LIMITS = {0} DEPTH = 1 ONLYONE = FALSE LATE = FALSE
CHECK_DEADLOCK FALSE
