INIT Init
NEXT Next
CONSTANT Conforms <- XConforms
CHECK_DEADLOCK FALSE
