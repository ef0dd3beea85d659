INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANT Commute
PROPERTY Keeps
CHECK_DEADLOCK FALSE
