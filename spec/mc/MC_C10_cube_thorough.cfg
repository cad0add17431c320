\* module MC_C10
CONSTANTS Name = "cubefull"
INIT Init
NEXT Next
INVARIANTS IsAGroup Included Lagrange Conj Emit
CHECK_DEADLOCK FALSE
