CONSTANTS B = 2 Depth = 1
INIT Init
NEXT Next
INVARIANTS Incidence Product Emit
CHECK_DEADLOCK FALSE
