INIT Init
NEXT Next
CONSTANTS
 Broad = TRUE
 Long = 4
INVARIANTS Round Exact Names
CHECK_DEADLOCK FALSE
