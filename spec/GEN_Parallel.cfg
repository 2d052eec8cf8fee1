SPECIFICATION Spec
CONSTANTS TASKS = 12 WORKERS = {1, 2, 3} CHUNK = 2 RUNS = 1 WHOLE = FALSE LOCKED = TRUE DOUBLE <- NoDouble
INVARIANTS GenSchedule
CHECK_DEADLOCK FALSE
