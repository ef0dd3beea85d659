INIT Init
NEXT Next
CONSTANT Conforms <- IdentConforms
CHECK_DEADLOCK FALSE
