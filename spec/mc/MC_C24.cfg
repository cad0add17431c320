\* module MC_C24
CONSTANTS D = {4, 5} O = {0, 1} B = 1 Queries = {"twinparam", "XI", "XII", "direct_cof"} Asked = 2
INIT Init
NEXT Next
INVARIANTS Solved Swap OnlyTwo Emit
CHECK_DEADLOCK FALSE
