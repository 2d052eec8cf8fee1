SPECIFICATION Spec
CONSTANTS PLACES = {"a", "b"}
 KS = {1, 2}
 SEEDS = {0, 11}
 CELLS = {1, 2, 3}
 STEPS = 3
 SHARED = FALSE
INVARIANTS TablesSay EachMedoidOnce LabelsLead OwnTable
PROPERTY Ends
CHECK_DEADLOCK FALSE
