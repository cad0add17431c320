\* module MC_C16
CONSTANTS N = 2 R2s = {0, 1, 2, 4, 5, 8, 10} MaxShrink = 3
INIT Init
NEXT Next
INVARIANTS NoRepeat Inside Complete Ordered Emit
CHECK_DEADLOCK FALSE
