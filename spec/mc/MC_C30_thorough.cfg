\* module MC_C30
CONSTANTS Sizes = {1, 2, 3, 5} B = 2
INIT Init
NEXT Next
INVARIANTS Lower Attained EigenAtStart Bounded Emit
CHECK_DEADLOCK FALSE
