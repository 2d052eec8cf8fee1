SPECIFICATION Spec
CONSTANTS SIZES <- Three VALUES = {1, 2, 3} LIMITS = {0, 1, 2, 3} DEPTH = 12 ONLYONE = FALSE LATE = FALSE
INVARIANTS GenHistory
CHECK_DEADLOCK FALSE
