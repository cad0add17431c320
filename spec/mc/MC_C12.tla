--------------------------------- MODULE MC_C12 ---------------------------------
(* Every history of setU and setLaue calls up to Depth, emitted for replay.      *)
EXTENDS MartObj, Json, TLC
Emit == Len(hist) = Depth => PrintT("CASE " \o ToJson([hist |-> hist]))
=================================================================================
