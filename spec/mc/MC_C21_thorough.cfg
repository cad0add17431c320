\* module MC_C21
CONSTANTS Bases <- BsT Starts <- StQ
SPECIFICATION Spec
INVARIANTS Unimod BestNear Emit
PROPERTIES Falls Ends
CHECK_DEADLOCK FALSE
