CONSTANTS Bases <- BsMore B = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS Agree Invariant Zero Positive Emit
CHECK_DEADLOCK FALSE
