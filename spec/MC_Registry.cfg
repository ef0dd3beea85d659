INIT Init
NEXT Next
CONSTANT Depth = 2
INVARIANTS LastDecides CaseBlind
CHECK_DEADLOCK FALSE
