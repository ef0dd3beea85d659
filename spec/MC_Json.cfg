INIT Init
NEXT Next
CONSTANT All = FALSE
INVARIANTS RoundTrip Stable
CHECK_DEADLOCK FALSE
