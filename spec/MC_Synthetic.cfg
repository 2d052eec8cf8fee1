SPECIFICATION Spec
CONSTANTS
 KS = {1, 3}
 SEEDS = {0, 1}
 SIDE = 2
 NMEDOIDS = 1
 NROWS = 2
 STREAM = {0, 1}
 HEIGHTS = {5, 6}
 Within = TRUE
INVARIANTS Fits Few Repeatable Told DelayKeeps
CHECK_DEADLOCK FALSE
