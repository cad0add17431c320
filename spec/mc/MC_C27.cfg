\* module MC_C27
CONSTANTS Dims = {1, 2, 3, 4} E = {0, 3} Depth = 2
INIT Init
NEXT Next
INVARIANTS Laws Kept Emit
CHECK_DEADLOCK FALSE
