SPECIFICATION Spec
CONSTANTS
  HOMES = {"a", "b"}
  REGIONS = {"r", "s"}
  DISTS = {"dtw", "w1"}
  KS = {2, 12}
  SEEDS = {1, 2}
  MODES = {"lite"}
  INITS <- MCInits
  DEPTH = 2
INVARIANTS AnswersAsked FilesAreStore
CHECK_DEADLOCK FALSE
