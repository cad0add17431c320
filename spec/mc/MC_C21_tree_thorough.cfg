\* module MC_C21_tree
CONSTANTS Depth = 4
INIT Init
NEXT Next
INVARIANTS Complete InBall
CHECK_DEADLOCK FALSE
