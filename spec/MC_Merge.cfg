INIT Init
NEXT Next
CONSTANTS
  Rich = FALSE
  MaxSize = 2
  AssocSize = 2
INVARIANTS Commutes Associates Union Idempotent
CHECK_DEADLOCK FALSE
