SPECIFICATION Spec
CONSTANTS
 REGS = {"r"}
 KINDS = {"kmedoids", "regular"}
 KSS = {2}
 SEEDOPTS = {1, 2, 99}
 TPOPTS = {8, 99}
 ERROPTS = {1, 3}
 TFOPTS = {0, 2}
 PROCS = {1, 2}
 RUNS = 3
 SeedInName = TRUE
INVARIANTS AnswersAsked ReportsSay TrainedServes NotFromNowhere
PROPERTY Ends
CHECK_DEADLOCK FALSE
