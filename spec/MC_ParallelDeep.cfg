SPECIFICATION Spec
CONSTANTS TASKS = 7 WORKERS = {1, 2, 3} CHUNK = 2 RUNS = 2 WHOLE = FALSE LOCKED = TRUE DOUBLE <- NoDouble
INVARIANTS SerialResult PartialOwn OnceEach InputsKept
PROPERTIES Terminates
VIEW View
CHECK_DEADLOCK FALSE
