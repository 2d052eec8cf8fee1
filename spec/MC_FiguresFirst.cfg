SPECIFICATION Spec
CONSTANTS
 SIDE = 2
 JOBS = 3
 HOW = {"current"}
 ORDER = {"save first"}
INVARIANTS FilesTrue FrameExact MarkInside CentreMiddle
CHECK_DEADLOCK FALSE
