\* module MC_C28_sphere
CONSTANTS B = 4
INIT Init
NEXT Next
INVARIANTS Tan Fold Scale Disc Emit
CHECK_DEADLOCK FALSE
