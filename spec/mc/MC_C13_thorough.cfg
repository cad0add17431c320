CONSTANTS B = 4 Depth = 1
INIT Init
NEXT Next
INVARIANTS Incidence Product Emit
CHECK_DEADLOCK FALSE
