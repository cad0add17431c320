--------------------------------- MODULE T_C09 ----------------------------------
(* Conformance for C09.  Each event logs the primitive basis e.e and conventional*)
(* basis e.k of the lattice, the indices put in and what came out.               *)
EXTENDS Bravais, Conform
VARIABLES k, l, st
Start(c) == "start"
Near(u, v, s) == VClose(u, v, NMul(NTen(9), NMax(1, s)))
(* one index: the same vector in space; from is the basis of the input           *)
SameVector(From, To, x, y) == IsVec(y, Len(x)) /\ Near(MVec(From, x), MVec(To, y), NMul(MaxAbs(From), VMaxAbs(x)))
(* the result as a list of vectors (a list of one index may come back bare)      *)
Rows1(o, m) == IF Len(o.shape) = 1 /\ m = 1 THEN <<o.v>> ELSE o.v
ShapeOK(e) == /\ IsArr(e.out)
              /\ IF e.single THEN e.out.shape = <<Len(e.e)>>
                 ELSE e.out.shape = <<Len(e.idx), Len(e.e)>> \/ (Len(e.idx) = 1 /\ e.out.shape = <<Len(e.e)>>)
List(e) == IF e.single THEN <<e.idx>> ELSE e.idx
Conv(e, From, To) ==
  Clauses(<< <<"the result does not have the shape of the input", ShapeOK(e)>>,
             <<"the converted index is another vector in space", \A i \in 1..Len(List(e)) : SameVector(From, To, List(e)[i], Rows1(e.out, Len(List(e)))[i])>> >>)
Verdict(s, e) ==
  CASE e.op = "to_primitive" -> Conv(e, e.k, e.e)
    [] e.op = "to_conventional" -> Conv(e, e.e, e.k)
    [] e.op = "roundtrip" -> IF ShapeOK(e) /\ \A i \in 1..Len(List(e)) : Near(List(e)[i], Rows1(e.out, Len(List(e)))[i], VMaxAbs(List(e)[i])) THEN "ok"
                             ELSE "converting back does not return the original"
    [] e.op = "wrong shape" -> IF Raises(e.out, {"ValueError"}) THEN "ok" ELSE "input of the wrong shape does not raise ValueError"
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
