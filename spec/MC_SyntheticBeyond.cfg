SPECIFICATION Spec
CONSTANTS
 KS = {2, 3}
 SEEDS = {0, 1}
 SIDE = 2
 NMEDOIDS = 1
 NROWS = 2
 STREAM = {0, 2}
 HEIGHTS = {5, 6}
 Within = FALSE
INVARIANTS Fits Few Repeatable Told DelayKeeps
CHECK_DEADLOCK FALSE
