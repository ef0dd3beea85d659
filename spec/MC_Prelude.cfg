INIT Init
NEXT Next
INVARIANTS Places
CHECK_DEADLOCK FALSE
