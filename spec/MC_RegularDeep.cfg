SPECIFICATION Spec
CONSTANTS
  MAXAXIS = 60
INVARIANTS CutsGood EveryPositionInOnePiece TilingFromCuts BalancedOK
CHECK_DEADLOCK FALSE
