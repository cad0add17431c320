\* module MC_C17
CONSTANTS Pairs <- PairsT NSols = {1, 2, 3} Slices = {1, 7, 40, 1000} Starts <- StartsT
INIT Init
NEXT Next
INVARIANTS Best Emit
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
