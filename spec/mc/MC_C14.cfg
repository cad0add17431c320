CONSTANTS Depth = 3
INIT Init
NEXT Next
INVARIANTS Proper Undo Emit
CHECK_DEADLOCK FALSE
