\* module MC_C26
CONSTANTS Starts = {1, 2, 3, 4} E = {0, 1} Depth = 3
INIT Init
NEXT Next
INVARIANTS One Twosided Emit
CHECK_DEADLOCK FALSE
