\* module MC_C22
CONSTANTS N = 2 B = 7 Stride = 5
SPECIFICATION Spec
INVARIANTS SameLat EndsReduced Emit
PROPERTIES Falls
CHECK_DEADLOCK FALSE
