INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANTS LastDecides CaseBlind
CHECK_DEADLOCK FALSE
