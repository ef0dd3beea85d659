INIT Init
NEXT Next
CONSTANT Conforms <- JsonConforms
CHECK_DEADLOCK FALSE
