CONSTANTS D = {0, 1, 3} O = {-1, 0, 1}
INIT Init
NEXT Next
INVARIANTS First NoRepeat Complete Emit
CHECK_DEADLOCK FALSE
