INIT Init
NEXT Next
CONSTANT Pairs = FALSE
INVARIANT CleanIffRight
CHECK_DEADLOCK FALSE
