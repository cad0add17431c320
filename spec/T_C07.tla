--------------------------------- MODULE T_C07 ----------------------------------
(* Conformance for C07: geometry of a built Bravais lattice.                     *)
EXTENDS Bravais, Conform
VARIABLES k, l, st
Start(c) == "start"
IsM(o, n) == IsArr(o) /\ IsMat(o.v, n, n)
MetricClose(G, M) == \A i, j \in 1..Len(G) : NLe(NSq(NSub(G[i][j], M[i][j])), NMul(NTen(18), NMul(M[i][i], M[j][j])))
Geometry(e) ==
  LET d == e.dim
  IN Clauses(<< <<"bases and conversion are square matrices", IsM(e.base, d) /\ IsM(e.conv, d) /\ IsM(e.trans, d)>>,
     <<"the conventional vectors do not have the given lengths and angles", MetricClose(Gram(e.conv.v), Metric(d, e.id, e.p))>>,
     <<"the conventional basis is not right-handed", NLt(0, Det(e.conv.v))>>,
     <<"the conventional basis is not in the standard orientation", Oriented(d, e.id, e.conv.v)>>,
     <<"the primitive basis is singular", ~Singular(e.base.v)>>,
     <<"the primitive lattice is not the centred conventional lattice", Spans(d, e.id, e.base.v, e.conv.v)>>,
     <<"the conversion matrix does not take the primitive to the conventional basis", MClose(MMul(e.base.v, e.trans.v), e.conv.v, NMul(NTen(9), NMax(1, MaxAbs(e.conv.v))))>>,
     <<"the determinant of the conversion matrix is not the number of points per cell", NClose(Det(e.trans.v), PointsPerCell(d, e.id), NTen(9))>> >>)
Verdict(s, e) ==
  CASE e.op = "geometry" -> Geometry(e)
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
