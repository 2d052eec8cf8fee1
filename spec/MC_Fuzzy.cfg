SPECIFICATION Spec
CONSTANTS
  FN = 2
  FK = 3
  UNIT = 4
INVARIANTS Nested ZeroIsBest UnitIsAll EveryoneSomewhere MemberSane
CHECK_DEADLOCK FALSE
