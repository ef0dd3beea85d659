INIT Init
NEXT Next
CONSTANTS
  MaxShapes = 3
  MaxLen = 2
INVARIANTS Agrees Meet GroupLaws
CHECK_DEADLOCK FALSE
