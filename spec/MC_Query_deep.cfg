INIT Init
NEXT Next
CONSTANT MaxRefs = 2
INVARIANT Sane
CHECK_DEADLOCK FALSE
