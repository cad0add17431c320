CONSTANTS B = 1 M = 1
INIT Init
NEXT Next
INVARIANTS Metric NotClose Both InAut Emit
CHECK_DEADLOCK FALSE
