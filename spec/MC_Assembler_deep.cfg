INIT Init
NEXT Next
CONSTANTS
  MaxRoots = 3
  Rich = TRUE
INVARIANTS Order Inside Ends
CHECK_DEADLOCK FALSE
