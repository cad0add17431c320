\* module MC_C02_scramble
CONSTANTS Dets = {1, 2, 4, 6, 9} N = 2 Depth = 3
INIT Init
NEXT Next
VIEW View
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE
