INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANT Commute
PROPERTY Keeps
CHECK_DEADLOCK FALSE
