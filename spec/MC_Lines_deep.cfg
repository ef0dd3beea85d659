INIT Init
NEXT Next
CONSTANT Across = TRUE
INVARIANTS Canonical Many
CHECK_DEADLOCK FALSE
