\* module MC_C02_scramble
CONSTANTS Dets = {1, 2, 4} N = 3 Depth = 1
INIT Init
NEXT Next
VIEW View
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE
