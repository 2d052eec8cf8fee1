SPECIFICATION Spec
CONSTANTS
  HOMES = {"a", "b"}
  REGIONS = {"r"}
  DISTS = {"dtw", "w1"}
  KS = {2}
  SEEDS = {1}
  MODES = {"lite"}
  INITS <- MCInits
  DEPTH = 4
INVARIANTS AnswersAsked FilesAreStore
CHECK_DEADLOCK FALSE
