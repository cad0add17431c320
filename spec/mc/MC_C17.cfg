\* module MC_C17
CONSTANTS Pairs <- PairsQ NSols = {1, 2} Slices = {7, 40} Starts <- StartsQ
INIT Init
NEXT Next
INVARIANTS Best Emit
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
