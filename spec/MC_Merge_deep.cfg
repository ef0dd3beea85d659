INIT Init
NEXT Next
CONSTANTS
  Rich = TRUE
  MaxSize = 3
  AssocSize = 3
INVARIANTS Commutes Associates Union Idempotent
CHECK_DEADLOCK FALSE
