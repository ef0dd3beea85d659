INIT Init
NEXT Next
CONSTANTS K = 3 T = 4
INVARIANTS OneLine
CHECK_DEADLOCK FALSE
