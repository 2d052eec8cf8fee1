SPECIFICATION Spec
CONSTANTS N = 3
 D = 2
 SUITE = 2
 S = 100000
 START <- Lowest
INVARIANTS EachOnce InRange BestNamed Labelling Units Extremes
CHECK_DEADLOCK FALSE
