CONSTANTS D = 3 N = 3 NDet = 8
INIT Init
NEXT Next
INVARIANTS NoDuplicates Sound Complete
CHECK_DEADLOCK FALSE
