CONSTANTS Bases <- Bs B = 1
INIT Init
NEXT Next
VIEW View
INVARIANTS Agree Invariant Zero Positive Emit
CHECK_DEADLOCK FALSE
