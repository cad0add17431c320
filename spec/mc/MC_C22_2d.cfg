\* module MC_C22
CONSTANTS N = 2 B = 5 Stride = 7
SPECIFICATION Spec
INVARIANTS SameLat EndsReduced Emit
PROPERTIES Falls
CHECK_DEADLOCK FALSE
