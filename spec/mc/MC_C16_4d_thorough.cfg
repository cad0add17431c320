\* module MC_C16
CONSTANTS N = 4 R2s = {1, 2, 3} MaxShrink = 1
INIT Init
NEXT Next
INVARIANTS NoRepeat Inside Complete Ordered Emit
CHECK_DEADLOCK FALSE
