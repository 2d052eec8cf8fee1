SPECIFICATION Spec
CONSTANTS WORLDS <- DEEPWORLDS DEPTH = 4 ForgetOnTrain = TRUE
INVARIANTS Answered Diagonal Sane UnitsKept
CHECK_DEADLOCK FALSE
