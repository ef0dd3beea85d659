INIT Init
NEXT Next
CONSTANTS
  MaxRoots = 2
  Rich = FALSE
INVARIANTS Order Inside Ends
CHECK_DEADLOCK FALSE
