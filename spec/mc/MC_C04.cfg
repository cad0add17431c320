CONSTANTS A2 = 4 A3 = 2 O3 = 1
INIT Init
NEXT Next
INVARIANTS Grp Preserves Restriction
CHECK_DEADLOCK FALSE
