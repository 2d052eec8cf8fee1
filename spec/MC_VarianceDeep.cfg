SPECIFICATION Spec
CONSTANTS
 SIZES <- Large
 D = 2
 K = 3
 ASKED = {100, 0, 2}
 Once = TRUE
INVARIANTS Reaches Tight RandomOutside PanelsOnGrid EveryCellOnce
CHECK_DEADLOCK FALSE
