SPECIFICATION Spec
CONSTANTS
  KN = 4
  KK = 2
  KVALS = {0, 1, 3, 4}
  KTOL10 = 15
INVARIANTS MedoidsOk LabelsOk CostOk Terminal Modes
PROPERTIES Decreases Ends
CHECK_DEADLOCK FALSE
