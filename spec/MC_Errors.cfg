SPECIFICATION Spec
CONSTANTS WORLDS <- QUICKWORLDS DEPTH = 4 ForgetOnTrain = TRUE
INVARIANTS Answered Diagonal Sane UnitsKept
CHECK_DEADLOCK FALSE
