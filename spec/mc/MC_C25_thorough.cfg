\* module MC_C25
CONSTANTS D = {4, 5, 6} O = {0, 1} B = 1 Scales = {41, 45, 50, 54} Queries = {"volumefrac", "iscompatible", "habitplanes"} Asked = 2
INIT Init
NEXT Next
INVARIANTS Quadratic Mid Emit
CHECK_DEADLOCK FALSE
