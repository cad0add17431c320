--------------------------------- MODULE MC_C16 ---------------------------------
EXTENDS VecGen, Json
Emit == cur = End => PrintT("CASE " \o ToJson([n |-> N, hist |-> hist]))
View == <<cur, r2, emitted, shrinks, hist>>
=================================================================================
