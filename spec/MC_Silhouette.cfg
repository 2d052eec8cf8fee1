SPECIFICATION Spec
CONSTANTS N = 4
 D = 1
 SUITE = 1
 S = 100000
 START <- Lowest
INVARIANTS EachOnce InRange BestNamed Labelling Units Extremes
CHECK_DEADLOCK FALSE
