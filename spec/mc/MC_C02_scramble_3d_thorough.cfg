\* module MC_C02_scramble
CONSTANTS Dets = {1, 2, 3, 4, 6} N = 3 Depth = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE
