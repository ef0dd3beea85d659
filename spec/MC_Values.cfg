INIT Init
NEXT Next
CONSTANT Depth = 2
INVARIANTS Grows Equivalence
CHECK_DEADLOCK FALSE
