SPECIFICATION Spec
CONSTANTS
  MAXAXIS = 24
INVARIANTS CutsGood EveryPositionInOnePiece TilingFromCuts BalancedOK
CHECK_DEADLOCK FALSE
