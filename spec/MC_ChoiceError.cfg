SPECIFICATION Spec
CONSTANTS SIZES <- Two VALUES = {1, 2} LIMITS = {0, 1, 2} DEPTH = 6 ONLYONE = TRUE LATE = FALSE
INVARIANTS WithinLimit ChosenIsBest Recorded Exhausts
VIEW View
CHECK_DEADLOCK FALSE
