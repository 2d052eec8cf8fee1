SPECIFICATION Spec
CONSTANTS
 MODELS = 5
 TIMES = {1, 2, 3}
 ERRORS = {1, 2, 4}
 STEPS = 10
 SkipUndefined = TRUE
 OwnCost = TRUE
INVARIANTS Exact CostTrue CostLowest AccurateFirst Trade
CHECK_DEADLOCK FALSE
