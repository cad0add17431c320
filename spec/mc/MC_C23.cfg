\* module MC_C23
CONSTANTS D = {3, 4, 6} O = {0, 1} B = 2 Queries = {"table", "pairs", "conv", "comp", "typeI"} Asked = 1
INIT Init
NEXT Next
INVARIANTS ConvIsTwin SecondAxis Emit
CHECK_DEADLOCK FALSE
