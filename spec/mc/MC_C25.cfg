\* module MC_C25
CONSTANTS D = {4, 5} O = {0, 1} B = 1 Scales = {43, 47} Queries = {"volumefrac", "iscompatible", "habitplanes"} Asked = 1
INIT Init
NEXT Next
INVARIANTS Quadratic Mid Emit
CHECK_DEADLOCK FALSE
