CONSTANTS B = 2
INIT Init
NEXT Next
INVARIANTS InSpace Integral Points
CHECK_DEADLOCK FALSE
