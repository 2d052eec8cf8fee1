SPECIFICATION Spec
CONSTANTS SIZES <- Three VALUES = {1, 2} LIMITS = {1, 2} DEPTH = 7 ONLYONE = FALSE LATE = FALSE
INVARIANTS WithinLimit ChosenIsBest Recorded Exhausts
VIEW View
CHECK_DEADLOCK FALSE
