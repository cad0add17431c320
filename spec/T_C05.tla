--------------------------------- MODULE T_C05 ----------------------------------
(* Conformance for C05: completeness of the groups of Bravais lattices against   *)
(* the full set of metric-preserving integer matrices, and membership tests.     *)
EXTENDS Lattices, Conform
VARIABLES k, l, st
Start(c) == "start"
Set(s) == { s[i] : i \in 1..Len(s) }
AllMats(o, n) == IsArr(o) /\ Len(o.shape) = 3 /\ o.shape[1] >= 1 /\ \A i \in 1..Len(o.v) : IsMat(o.v[i], n, n)
AllIntMats(o, n) == AllMats(o, n) /\ \A i \in 1..Len(o.v) : MIsInt(o.v[i])
ZSet(E, o) == { TLCEval(Zmat(E, o.v[i])) : i \in 1..Len(o.v) }
Complete(e) ==
  LET n == Len(e.e)
      A == Aut(Gram(e.e))
      P == { a \in A : NEq(Det(a), 1) }
  IN Clauses(<< <<"the groups are lists of matrices", AllMats(e.laue, n) /\ AllMats(e.point, n) /\ AllIntMats(e.spec, n) /\ AllIntMats(e.lat, n)>>,
     <<"a rotation symmetry is missing from the Laue group", P \subseteq ZSet(e.e, e.laue)>>,
     <<"a symmetry is missing from the point group", A \subseteq ZSet(e.e, e.point)>>,
     <<"a symmetry is missing from the special lattice group", P \subseteq Set(e.spec.v)>>,
     <<"a symmetry is missing from the lattice group", A \subseteq Set(e.lat.v)>>,
     <<"the groups contain more than the symmetries", Len(e.laue.v) = Cardinality(P) /\ Len(e.point.v) = Cardinality(A)>> >>)
Agree(o, ans) == CASE ans = "yes" -> IsT(o) [] ans = "no" -> IsF(o) [] OTHER -> IsBool(o)
Verdict(s, e) ==
  CASE e.op = "complete" -> Complete(e)
    [] e.op = "inpointgroup" -> IF Agree(e.out, InPointGroup(e.e, e.q)) THEN "ok" ELSE "membership in the point group is wrong"
    [] e.op = "inlatticegroup" -> IF Agree(e.out, InLatticeGroup(e.e, e.q)) THEN "ok" ELSE "membership in the lattice group is wrong"
    [] e.op = "othershape" -> IF IsF(e.out) THEN "ok" ELSE "a matrix of another shape is not refused with False"
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
