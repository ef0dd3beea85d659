INIT Init
NEXT Next
CONSTANT Broad = TRUE
INVARIANTS OncePerShape Halts NoMore
CHECK_DEADLOCK FALSE
