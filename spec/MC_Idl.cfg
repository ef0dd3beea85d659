INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Layouts = {1, 4}
CONSTANT Pair <- PairSmall
INVARIANT Meant
INVARIANT OrderFree
