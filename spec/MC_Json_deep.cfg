INIT Init
NEXT Next
CONSTANT All = TRUE
INVARIANTS RoundTrip Stable
CHECK_DEADLOCK FALSE
