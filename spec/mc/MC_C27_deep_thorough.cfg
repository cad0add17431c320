\* module MC_C27
CONSTANTS Dims = {1, 3, 4} E = {0, 3} Depth = 3
INIT Init
NEXT Next
INVARIANTS Laws Kept Emit
CHECK_DEADLOCK FALSE
