INIT Init
NEXT Next
CONSTANTS
  Rich = FALSE
INVARIANTS Honest Late
CHECK_DEADLOCK FALSE
