SPECIFICATION Spec
CONSTANTS
  FN = 3
  FK = 3
  UNIT = 4
INVARIANTS Nested ZeroIsBest UnitIsAll EveryoneSomewhere MemberSane
CHECK_DEADLOCK FALSE
