CONSTANTS MaxId = 16 MaxLen = 7
INIT Init
NEXT Next
INVARIANTS Decided Emit
CHECK_DEADLOCK FALSE
