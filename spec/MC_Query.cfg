INIT Init
NEXT Next
CONSTANT MaxRefs = 1
INVARIANT Sane
CHECK_DEADLOCK FALSE
