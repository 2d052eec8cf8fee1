SPECIFICATION TraceSpec
CONSTANTS
 TStart <- XStart
 TStep <- XStep
 CLUSTERINGS = {}
 DIST = {}
 ERR = {}
 KINDS = {"costs"}
 PROCS = {1}
 RUNS = 1
 Fresh = TRUE
CHECK_DEADLOCK FALSE
