INIT Init
NEXT Next
CONSTANT Conforms <- QueryConforms
CHECK_DEADLOCK FALSE
