INIT Init
NEXT Next
CONSTANT Pairs = TRUE

CHECK_DEADLOCK FALSE
