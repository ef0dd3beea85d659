INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Layouts = {1, 2, 3, 4, 5, 6}
CONSTANT Pair <- PairDecls
INVARIANT Meant
INVARIANT OrderFree
