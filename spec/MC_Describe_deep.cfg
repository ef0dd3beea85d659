INIT Init
NEXT Next
CONSTANT Broad = TRUE
INVARIANTS Determined OnePackage TextsCount
CHECK_DEADLOCK FALSE
