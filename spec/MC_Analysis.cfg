SPECIFICATION Spec
CONSTANTS
 CLUSTERINGS <- Two
 DIST <- DSmall
 ERR <- ESmall
 KINDS = {"costs", "distances", "between", "members", "summary"}
 PROCS = {1,2}
 RUNS = 2
 Fresh = TRUE
INVARIANTS TablesComplete TablesTrue Agree StoreTrue
CHECK_DEADLOCK FALSE
