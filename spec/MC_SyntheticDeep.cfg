SPECIFICATION Spec
CONSTANTS
 KS = {1, 3}
 SEEDS = {0, 1}
 SIDE = 3
 NMEDOIDS = 2
 NROWS = 1
 STREAM = {0, 1, 2}
 HEIGHTS = {5, 6}
 Within = TRUE
INVARIANTS Fits Few Repeatable Told DelayKeeps
CHECK_DEADLOCK FALSE
