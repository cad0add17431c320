\* module MC_C06
CONSTANTS Class = "group" NQ = 4 Depth = 4 Copies = TRUE Pattern = FALSE
CONSTANTS Queries <- QS
INIT Init
NEXT Next
INVARIANTS HistoryFree CacheHonest Emit
CONSTRAINT Shape
CHECK_DEADLOCK FALSE
