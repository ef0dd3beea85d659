INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Models <- All
INVARIANT Denoted
