INIT Init
NEXT Next
CONSTANTS
  Depth = 3
  Rich = TRUE
INVARIANTS OrderFree Rules NothingMore
CHECK_DEADLOCK FALSE
