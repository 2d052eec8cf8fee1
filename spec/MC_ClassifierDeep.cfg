SPECIFICATION Spec
CONSTANTS POINTS = {1, 2}
 SETTINGS = {"A", "B"}
 CLUSTERS = {1, 2}
 TARGETS = {"own", "other"}
 ASKS = 2
 MOVES = 2
 BIND = "each"
 KEEP = "nothing"
INVARIANTS OwnSeries LabelModel LoadedOnce OnlyStored
PROPERTIES StoredServes Terminates
CHECK_DEADLOCK FALSE
