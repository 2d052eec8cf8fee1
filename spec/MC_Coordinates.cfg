SPECIFICATION Spec
CONSTANTS
  DX = 4
  DY = 4
INVARIANTS SamePlace InFrame RectAgrees IndexBijective
CHECK_DEADLOCK FALSE
