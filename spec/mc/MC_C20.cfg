\* module MC_C20
CONSTANTS Tables <- TabsQ Pools = {1, 2, 3, 9} NSols = {1, 2, 3} MaxWait = 3
SPECIFICATION FairSpec
INVARIANTS Outcome PoolBound AllStarted Emit
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
