INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANTS Grows Equivalence
CHECK_DEADLOCK FALSE
