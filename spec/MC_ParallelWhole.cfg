SPECIFICATION Spec
CONSTANTS TASKS = 4 WORKERS = {1, 2} CHUNK = 1 RUNS = 2 WHOLE = TRUE LOCKED = TRUE DOUBLE <- NoDouble
INVARIANTS SerialResult PartialOwn OnceEach InputsKept
PROPERTIES Terminates
VIEW View
CHECK_DEADLOCK FALSE
