\* module MC_C24
CONSTANTS D = {3, 4, 6} O = {0, 1, 2} B = 2 Queries = {"twinparam", "XI", "XII", "direct_cof"} Asked = 1
INIT Init
NEXT Next
INVARIANTS Solved Swap OnlyTwo Emit
CHECK_DEADLOCK FALSE
