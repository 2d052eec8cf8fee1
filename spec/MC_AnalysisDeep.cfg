SPECIFICATION Spec
CONSTANTS
 CLUSTERINGS <- Three
 DIST <- D1
 ERR <- E1
 KINDS = {"costs", "distances", "between", "members", "summary"}
 PROCS = {1}
 RUNS = 4
 Fresh = TRUE
INVARIANTS TablesComplete TablesTrue Agree StoreTrue
CHECK_DEADLOCK FALSE
