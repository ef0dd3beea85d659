INIT Init
NEXT Next
CONSTANT Conforms <- FormsConforms
CHECK_DEADLOCK FALSE
