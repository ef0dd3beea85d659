INIT Init
NEXT Next
CONSTANTS
  MaxToks = 2
  Broad = FALSE
INVARIANTS Inverse Stable
CHECK_DEADLOCK FALSE
