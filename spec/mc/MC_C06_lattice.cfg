\* module MC_C06
CONSTANTS Class = "lattice" NQ = 11 Depth = 3 Copies = TRUE Pattern = TRUE
CONSTANTS Queries <- QS
INIT Init
NEXT Next
INVARIANTS HistoryFree CacheHonest Emit
CONSTRAINT Shape
CHECK_DEADLOCK FALSE
