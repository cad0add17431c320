--------------------------------- MODULE T_C04 ----------------------------------
(* Conformance for C04: the four reported groups of a lattice.  The orthogonal   *)
(* groups are compared through the integer matrices of their elements.           *)
EXTENDS Lattices, Conform
VARIABLES k, l, st
Start(c) == "start"
Tol6 == NTen(6)
Elems(o) == o.v
AllMats(o, n) == IsArr(o) /\ Len(o.shape) = 3 /\ o.shape[1] >= 1 /\ \A i \in 1..Len(o.v) : IsMat(o.v[i], n, n)
Set(s) == { s[i] : i \in 1..Len(s) }
ZSeq(E, o) == TLCEval([i \in 1..Len(o.v) |-> TLCEval(Zmat(E, o.v[i]))])
(* near: the lattice deviates from one of higher symmetry by about the tolerance; *)
(* what is reported must still be a group, with elements that fit that well       *)
Genuine(E, o, near) == \A i \in 1..Len(o.v) : NLe(OrthDev(o.v[i]), Tol6) /\ MNearInt(MMul(MInv(E), MMul(o.v[i], E)), IF near THEN NMul(5, NTen(4)) ELSE NTen(5))
GroupsOK(e) ==
  LET n == Len(e.e)
      E == e.e
      la == ZSeq(E, e.laue)
      po == ZSeq(E, e.point)
  IN Clauses(<< <<"the groups are lists of matrices", AllMats(e.laue, n) /\ AllMats(e.point, n) /\ AllMats(e.spec, n) /\ AllMats(e.lat, n)>>,
     <<"an element of the Laue group is no symmetry of the lattice", Genuine(E, e.laue, e.near)>>,
     <<"an element of the point group is no symmetry of the lattice", Genuine(E, e.point, e.near)>>,
     <<"the lattice groups are not integer matrices", \A i \in 1..Len(e.spec.v) : MIsInt(e.spec.v[i])>>,
     <<"the lattice groups are not integer matrices", \A i \in 1..Len(e.lat.v) : MIsInt(e.lat.v[i])>>,
     <<"the Laue group repeats an element", Cardinality(Set(la)) = Len(la)>>,
     <<"the point group repeats an element", Cardinality(Set(po)) = Len(po)>>,
     <<"the Laue group is not a group", IsGroup(Set(la), n)>>,
     <<"the point group is not a group", IsGroup(Set(po), n)>>,
     <<"the Laue group is not the proper part of the point group", Set(la) = { z \in Set(po) : NEq(Det(z), 1) }>>,
     <<"the special lattice group repeats an element", Cardinality(Set(e.spec.v)) = Len(e.spec.v)>>,
     <<"the lattice group repeats an element", Cardinality(Set(e.lat.v)) = Len(e.lat.v)>>,
     <<"the special lattice group is not the Laue group in the lattice basis", Set(e.spec.v) = Set(la)>>,
     <<"the lattice group is not the point group in the lattice basis", Set(e.lat.v) = Set(po)>>,
     <<"order() is not the number of elements", e.orders = <<Len(la), Len(po), Len(e.spec.v), Len(e.lat.v)>> >> >>)
Verdict(s, e) ==
  CASE e.op = "groups" -> GroupsOK(e)
    [] e.op = "refuse" -> IF Raises(e.out, {"AttributeError"}) THEN "ok" ELSE "a lattice of another dimension is not refused with AttributeError"
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
