INIT Init
NEXT Next
CONSTANTS
  Rich = TRUE
INVARIANTS Honest Late
CHECK_DEADLOCK FALSE
