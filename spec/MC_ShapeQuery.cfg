INIT Init
NEXT Next
CONSTANTS
  MaxShapes = 2
  MaxLen = 2
INVARIANTS Agrees Meet GroupLaws
CHECK_DEADLOCK FALSE
