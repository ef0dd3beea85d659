INIT Init
NEXT Next
CONSTANT Conforms <- SelectorConforms
CHECK_DEADLOCK FALSE
