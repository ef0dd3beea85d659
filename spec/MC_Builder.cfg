INIT Init
NEXT Next
CONSTANTS
  Depth = 3
  Rich = FALSE
INVARIANTS OrderFree Rules NothingMore
CHECK_DEADLOCK FALSE
