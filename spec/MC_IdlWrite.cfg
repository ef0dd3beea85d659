INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Models <- Few
INVARIANT Denoted
