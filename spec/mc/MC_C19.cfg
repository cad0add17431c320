\* module MC_C19
CONSTANTS Dets = {2, 3, 4} Gs = {"square", "hexagonal", "inversion"}
INIT Init
NEXT Next
INVARIANTS Right Pieces Emit
CHECK_DEADLOCK FALSE
