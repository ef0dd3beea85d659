INIT Init
NEXT Next
CONSTANTS
 Broad = FALSE
 Long = 3
INVARIANTS Round Exact Names
CHECK_DEADLOCK FALSE
