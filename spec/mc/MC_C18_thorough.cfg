\* module MC_C18
CONSTANTS Lats <- LatsT B = 2
INIT Init
NEXT Next
INVARIANTS SameDist SameLams Metric Orients HasForm Emit
CHECK_DEADLOCK FALSE
