SPECIFICATION Spec
CONSTANTS
  XS = {1, 2}
  YS = {2, 3}
  KS = {1, 2, 3}
  MergeExtra = 1
INVARIANTS Cover SizesAddUp MergedOwner RefusedExactly TouchWhole
CHECK_DEADLOCK FALSE
