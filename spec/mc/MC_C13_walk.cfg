\* module MC_C13
CONSTANTS B = 1 Depth = 2
INIT Init
NEXT Next
INVARIANTS Incidence Product Emit
CHECK_DEADLOCK FALSE
