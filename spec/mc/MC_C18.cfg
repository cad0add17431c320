\* module MC_C18
CONSTANTS Lats <- LatsQ B = 1
INIT Init
NEXT Next
INVARIANTS SameDist SameLams Metric Orients HasForm Emit
CHECK_DEADLOCK FALSE
