CONSTANTS B = 4 N = 2
INIT Init
NEXT Next
INVARIANTS LatticeKept EndsInNormalForm Unique
CHECK_DEADLOCK FALSE
