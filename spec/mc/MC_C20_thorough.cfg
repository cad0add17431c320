\* module MC_C20
CONSTANTS Tables <- TabsT Pools = {1, 2, 3, 4, 9} NSols = {1, 2, 3, 4} MaxWait = 5
SPECIFICATION FairSpec
INVARIANTS Outcome PoolBound AllStarted Emit
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
