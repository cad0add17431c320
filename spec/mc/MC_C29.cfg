\* module MC_C29
CONSTANTS Dims = {1, 2, 3} MaxSol = 3
SPECIFICATION Spec
INVARIANTS Accepts Whole Distinct RowsApart Emit
PROPERTY AllRead
CHECK_DEADLOCK FALSE
