SPECIFICATION Spec
CONSTANTS
 SIDE = 2
 JOBS = 3
 HOW = {"itself"}
 ORDER = {"show first", "save first"}
INVARIANTS FilesTrue FrameExact MarkInside CentreMiddle
CHECK_DEADLOCK FALSE
