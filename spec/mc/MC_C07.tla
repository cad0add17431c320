--------------------------------- MODULE MC_C07 ---------------------------------
(* Centred cells: the points of a conventional cell with its centrings form a    *)
(* lattice (closed under addition), and growing it one centring point at a time  *)
(* ends with exactly PointsPerCell points, for each type in 2D and 3D.           *)
EXTENDS Bravais
VARIABLES dim, id, pts
Frac(v) == VecOf(Len(v), LAMBDA i : NMul(2, NSub(v[i], NFloor(v[i]))))     \* in half units: 0 or 1
HalfAdd(u, v) == VecOf(Len(u), LAMBDA i : (u[i] + v[i]) % 2)
Origin == [i \in 1..dim |-> 0]
Init == \E d \in {2, 3} : dim = d /\ id \in 1..NTypes(d) /\ pts = {[i \in 1..d |-> 0]}
Cents == { Frac(Centring(dim, id)[i]) : i \in 1..Len(Centring(dim, id)) }
Next == /\ \E u \in pts, v \in Cents : HalfAdd(u, v) \notin pts /\ pts' = pts \cup {HalfAdd(u, v)}
        /\ UNCHANGED <<dim, id>>
Bounded == Cardinality(pts) <= PointsPerCell(dim, id)
Closed == (~ ENABLED Next) => /\ Cardinality(pts) = PointsPerCell(dim, id)
                              /\ pts = Cents \cup {Origin}
                              /\ \A u, v \in pts : HalfAdd(u, v) \in pts
(* the metric of every type with right angles is diagonal                        *)
MetricOK == LET p == <<2, 3, 5, 80, 85, 95>>
                G == Metric(dim, id, SubSeq(IF dim = 2 THEN <<2, 3, 70>> ELSE IF id \in {12, 13} THEN <<2, 3, 5, 80>> ELSE IF id = 5 THEN <<2, 80>> ELSE p, 1, NParams(dim, id)))
            IN PosDef(G) /\ Symmetric(G)
ASSUME NClose(Cos(60), "1/2", NTen(24)) /\ NClose(Cos(90), 0, NTen(24)) /\ NClose(Sin(30), "1/2", NTen(24)) /\ NClose(Cos(180), -1, NTen(24))
ASSUME NClose(NSq(Cos(45)), "1/2", NTen(24)) /\ NClose(NSq(Sin("-120")), "3/4", NTen(24)) /\ NClose(Cos(725), Cos(5), NTen(24))
ASSUME \A a \in -36..36 : NClose(NAdd(NSq(Cos(10 * a)), NSq(Sin(10 * a))), 1, NTen(24))
=================================================================================
