SPECIFICATION TraceSpec
CONSTANTS
 TStart <- XStart
 TStep <- XStep
 REGS = {"r"}
 KINDS = {"kmedoids"}
 KSS = {2}
 SEEDOPTS = {1}
 TPOPTS = {8}
 ERROPTS = {1}
 TFOPTS = {0}
 PROCS = {1}
 RUNS = 1
 SeedInName = TRUE
CHECK_DEADLOCK FALSE
