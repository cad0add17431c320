\* module MC_C23
CONSTANTS D = {3, 4, 6, 7} O = {0, 1, 2} B = 3 Queries = {"table", "pairs", "conv", "comp", "typeI"} Asked = 1
INIT Init
NEXT Next
INVARIANTS ConvIsTwin SecondAxis Emit
CHECK_DEADLOCK FALSE
