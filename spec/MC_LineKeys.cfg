INIT Init
NEXT Next
CONSTANTS K = 3 T = 3
INVARIANTS OneLine
CHECK_DEADLOCK FALSE
