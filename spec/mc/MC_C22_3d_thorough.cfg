\* module MC_C22
CONSTANTS N = 3 B = 4 Stride = 23
SPECIFICATION Spec
INVARIANTS SameLat EndsReduced Emit
PROPERTIES Falls
CHECK_DEADLOCK FALSE
