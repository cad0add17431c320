\* module MC_C06
CONSTANTS Class = "bravais" NQ = 18 Depth = 3 Copies = TRUE Pattern = TRUE
CONSTANTS Queries <- QS
INIT Init
NEXT Next
INVARIANTS HistoryFree CacheHonest Emit
CONSTRAINT Shape
CHECK_DEADLOCK FALSE
