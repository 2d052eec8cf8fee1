SPECIFICATION Spec
CONSTANTS
 RGS = {"r"}
 CLS = {"c"}
 PARS = {"a"}
 TLS = {2, 12}
 ERRS = {"MSE", "MASE"}
 TFS = {0, 2}
 DEPTH = 6
 WholeNamedByTl = TRUE
INVARIANTS AnswersAsked LoadOnlySaved LoadedAreTheSaved ReportsApart
CHECK_DEADLOCK FALSE
