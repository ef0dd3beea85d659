INIT Init
NEXT Next
CONSTANTS
  MaxToks = 3
  Broad = TRUE
INVARIANTS Inverse Stable
CHECK_DEADLOCK FALSE
