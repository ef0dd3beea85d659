INIT Init
NEXT Next
CONSTANT Across = FALSE
INVARIANTS Canonical Many
CHECK_DEADLOCK FALSE
