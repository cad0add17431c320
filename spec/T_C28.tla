--------------------------------- MODULE T_C28 ----------------------------------
(* Conformance for C28: e.vs the basis vectors of the cell, e.o its origin.      *)
EXTENDS Draw, Conform
VARIABLES k, l, st
Start(c) == "start"
Tol == NTen(8)
(* the corner that the point v is, if any                                        *)
CornersOf(e) == [c \in Picks(e.n) |-> Corner(e.o, e.vs, c)]
At(K, v) == { c \in DOMAIN K : VClose(K[c], v, Tol) }

(* the code takes directions within 1e-6 of the axis to be on it                 *)
ProjTol(p, z) == NMul(Len1(z), Rat(11, 10000000))
ProjOK(w, p, z) == IsVec(w, 2) /\ VClose(w, Proj(p, z), ProjTol(p, z))
Verdict(s, e) ==
  CASE e.op = "corners" ->
         IF ~IsArr(e.out) \/ e.out.shape # <<Cardinality(Picks(e.n)), e.n>> THEN "not one point per corner"
         ELSE LET K == CornersOf(e)
                  where == [i \in 1..Len(e.out.v) |-> At(K, e.out.v[i])]
              IN IF \E i \in DOMAIN where : Cardinality(where[i]) # 1 THEN "a point is not a corner of the cell"
                 ELSE IF UNION { where[i] : i \in DOMAIN where } # Picks(e.n) THEN "a corner of the cell is missing"
                 ELSE "ok"
    [] e.op = "bonds" ->
         IF ~IsArr(e.out) \/ e.out.shape # <<Cardinality(CellEdges(e.n)), 2, e.n>> THEN "not one bond per edge"
         ELSE LET K == CornersOf(e)
                  end(i, j) == At(K, e.out.v[i][j])
                  bd == [i \in 1..Len(e.out.v) |-> end(i, 1) \cup end(i, 2)]
              IN IF \E i \in DOMAIN bd : Cardinality(end(i, 1)) # 1 \/ Cardinality(end(i, 2)) # 1 THEN "a bond does not join corners of the cell"
                 ELSE IF \E i \in DOMAIN bd : bd[i] \notin CellEdges(e.n) THEN "a bond is not an edge of the cell"
                 ELSE IF { bd[i] : i \in DOMAIN bd } # CellEdges(e.n) THEN "an edge of the cell is missing"
                 ELSE "ok"
    [] e.op = "project" ->
         IF ~IsArr(e.out) \/ e.out.shape # <<2>> THEN "not a point of the plane"
         ELSE IF ~e.same THEN "an argument is changed"
         ELSE IF ~ProjOK(e.out.v, e.p, e.z) THEN "wrong projection" ELSE "ok"
    [] e.op = "poles" ->
         IF ~IsArr(e.out) \/ e.out.shape # <<Len(e.ps), 2>> THEN "not one point per direction"
         ELSE IF \E i \in 1..Len(e.ps) : ~ProjOK(e.out.v[i], e.ps[i], e.z) THEN "wrong projection in a pole figure" ELSE "ok"
    [] e.op = "bad poles" -> IF IsNone(e.out) \/ IsExc(e.out) THEN "ok" ELSE "something that is not a list of triples is projected"
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
