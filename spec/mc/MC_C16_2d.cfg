\* module MC_C16
CONSTANTS N = 2 R2s = {1, 2, 4, 5} MaxShrink = 2
INIT Init
NEXT Next
INVARIANTS NoRepeat Inside Complete Ordered Emit
CHECK_DEADLOCK FALSE
