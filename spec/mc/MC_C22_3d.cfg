\* module MC_C22
CONSTANTS N = 3 B = 3 Stride = 61
SPECIFICATION Spec
INVARIANTS SameLat EndsReduced Emit
PROPERTIES Falls
CHECK_DEADLOCK FALSE
