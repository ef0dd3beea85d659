INIT Init
NEXT Next
CONSTANTS
  Hows = {0, 3, 5, 6}
  Both = FALSE
INVARIANTS Exact Clash
CHECK_DEADLOCK FALSE
