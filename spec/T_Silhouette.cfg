SPECIFICATION TraceSpec
CONSTANTS TStart <- XStart
 TStep <- XStep
 N = 1
 D = 1
 SUITE = 1
 S = 100000
 START = 0
CHECK_DEADLOCK FALSE
