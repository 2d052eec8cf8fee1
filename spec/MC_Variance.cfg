SPECIFICATION Spec
CONSTANTS
 SIZES <- Small
 D = 2
 K = 3
 ASKED = {100, 0, 1}
 Once = TRUE
INVARIANTS Reaches Tight RandomOutside PanelsOnGrid EveryCellOnce
CHECK_DEADLOCK FALSE
