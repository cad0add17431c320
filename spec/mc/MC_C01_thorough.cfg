CONSTANTS D = 4 N = 3 NDet = 16
INIT Init
NEXT Next
INVARIANTS NoDuplicates Sound Complete
CHECK_DEADLOCK FALSE
