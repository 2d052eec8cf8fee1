SPECIFICATION TraceSpec
CONSTANTS TStart <- XStart TStep <- XStep
TASKS = 1 WORKERS = {1} CHUNK = 1 RUNS = 1 WHOLE = FALSE LOCKED = TRUE DOUBLE <- NoDouble
CHECK_DEADLOCK FALSE
