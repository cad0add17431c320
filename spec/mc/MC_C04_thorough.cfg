CONSTANTS A2 = 8 A3 = 4 O3 = 2
INIT Init
NEXT Next
INVARIANTS Grp Preserves Restriction
CHECK_DEADLOCK FALSE
