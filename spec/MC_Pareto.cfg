SPECIFICATION Spec
CONSTANTS
 MODELS = 4
 TIMES = {1, 2, 3}
 ERRORS = {1, 2, 4}
 STEPS = 4
 SkipUndefined = TRUE
 OwnCost = TRUE
INVARIANTS Exact CostTrue CostLowest AccurateFirst Trade
CHECK_DEADLOCK FALSE
