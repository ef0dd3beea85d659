INIT Init
NEXT Next
CONSTANT Broad = FALSE
INVARIANTS OncePerShape Halts NoMore
CHECK_DEADLOCK FALSE
