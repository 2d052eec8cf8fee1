SPECIFICATION Spec
CONSTANTS
 RGS = {"r"}
 CLS = {"c1", "c2"}
 PARS = {"a"}
 TLS = {2, 12}
 ERRS = {"MSE", "MASE"}
 TFS = {0, 1, 2}
 DEPTH = 6
 WholeNamedByTl = TRUE
INVARIANTS AnswersAsked LoadOnlySaved LoadedAreTheSaved ReportsApart
CHECK_DEADLOCK FALSE
