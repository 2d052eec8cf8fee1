SPECIFICATION TraceSpec
CONSTANTS TStart <- XStart TStep <- XStep WORLDS = {} DEPTH = 0 ForgetOnTrain = TRUE
CHECK_DEADLOCK FALSE
