\* module MC_C02_scramble
CONSTANTS Dets = {1, 2, 3, 4, 6, 8, 9, 12} N = 2 Depth = 5
INIT Init
NEXT Next
VIEW View
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE
