SPECIFICATION Spec
CONSTANTS SIZES <- Two VALUES = {1, 2, 3} LIMITS = {0, 1, 2} DEPTH = 6 ONLYONE = FALSE LATE = FALSE
INVARIANTS WithinLimit ChosenIsBest Recorded Exhausts
VIEW View
CHECK_DEADLOCK FALSE
