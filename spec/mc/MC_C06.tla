--------------------------------- MODULE MC_C06 ---------------------------------
(* Every history of a class with NQ queries, up to Depth calls; complete ones    *)
(* are emitted for replay on the real objects (query numbers are resolved by the *)
(* driver).  Pattern = TRUE keeps only query, [spoil,] query histories.          *)
EXTENDS Objects, Json, TLC
CONSTANTS Class, NQ, Pattern
QS == { ToString(i) : i \in 0..(NQ - 1) }
Shape == Pattern => /\ (Len(hist) >= 1 => hist[1][1] = "query")
                    /\ (Len(hist) = 3 => hist[2][1] = "spoil" /\ hist[3][1] = "query")
Wanted == IF Pattern THEN Len(hist) \in {2, 3} /\ hist[Len(hist)][1] = "query" /\ Shape
          ELSE Len(hist) = Depth /\ hist[Len(hist)][1] = "query"
Emit == Wanted => PrintT("CASE " \o ToJson([class |-> Class, hist |-> [i \in 1..Len(hist) |-> <<hist[i][1], hist[i][2]>>]]))
=================================================================================
