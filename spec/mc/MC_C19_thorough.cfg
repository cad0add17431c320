\* module MC_C19
CONSTANTS Dets = {1, 2, 3, 4, 5} Gs = {"square", "hexagonal", "inversion", "full", "trivial"}
INIT Init
NEXT Next
INVARIANTS Right Pieces Emit
CHECK_DEADLOCK FALSE
