INIT Init
NEXT Next
CONSTANTS
  Hows = {0, 1, 2, 3, 4, 5, 6, 7}
  Both = TRUE
INVARIANTS Exact Clash
CHECK_DEADLOCK FALSE
