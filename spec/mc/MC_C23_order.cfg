\* module MC_C23
CONSTANTS D = {4, 5} O = {0} B = 2 Queries = {"table", "pairs", "conv", "comp", "typeI"} Asked = 3
INIT Init
NEXT Next
INVARIANTS ConvIsTwin SecondAxis Emit
CHECK_DEADLOCK FALSE
