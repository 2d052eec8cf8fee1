SPECIFICATION Spec
CONSTANTS
  FIRST = 1979
  LAST = 2015
  DYEARS = {1978, 1980, 2015}
  DEPTH = 4
INVARIANTS ResultRight StoreMatches Calendar
CHECK_DEADLOCK FALSE
