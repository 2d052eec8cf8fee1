SPECIFICATION Spec
CONSTANTS
  VALS = {0, 1}
  MAXLEN = 4
  MAXWIN = 4
INVARIANTS EmittedInOrder AllEmitted Coverage
CHECK_DEADLOCK FALSE
