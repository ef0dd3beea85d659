INIT Init
NEXT Next
CONSTANT Broad = FALSE
INVARIANTS Determined OnePackage TextsCount
CHECK_DEADLOCK FALSE
