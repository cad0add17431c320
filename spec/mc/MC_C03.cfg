CONSTANTS B = 1 EmitPairs = TRUE
INIT Init
NEXT Next
INVARIANTS PointSets Reflexive Symmetric2 Transitive Emit
CHECK_DEADLOCK FALSE
