\* module MC_C06
CONSTANTS Class = "martensite" NQ = 9 Depth = 3 Copies = TRUE Pattern = FALSE
CONSTANTS Queries <- QS
INIT Init
NEXT Next
INVARIANTS HistoryFree CacheHonest Emit
CONSTRAINT Shape
CHECK_DEADLOCK FALSE
