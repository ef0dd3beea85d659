INIT Init
NEXT Next
CONSTANT Conforms <- ActionsConforms
CHECK_DEADLOCK FALSE
