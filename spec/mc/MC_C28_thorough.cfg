\* module MC_C28
CONSTANTS Dims = {2, 3} Depth = 4
INIT Init
NEXT Next
INVARIANTS Shape Rigid Emit
CHECK_DEADLOCK FALSE
