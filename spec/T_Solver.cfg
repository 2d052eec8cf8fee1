SPECIFICATION TraceSpec
CONSTANTS
 TStart <- XStart
 TStep <- XStep
 RGS = {"r"}
 CLS = {"c"}
 PARS = {"a"}
 TLS = {2, 12}
 ERRS = {"MSE", "MASE"}
 TFS = {0, 2}
 DEPTH = 6
 WholeNamedByTl = TRUE
CHECK_DEADLOCK FALSE
