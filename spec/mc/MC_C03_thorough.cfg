CONSTANTS B = 2 EmitPairs = TRUE
INIT Init
NEXT Next
INVARIANTS PointSets Reflexive Symmetric2 Emit
CHECK_DEADLOCK FALSE
