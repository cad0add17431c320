--------------------------------- MODULE T_C13 ----------------------------------
(* Conformance for C13: e.l is the correspondence, e.x one index or a list.      *)
EXTENDS LinAlg, Conform
VARIABLES k, l, st
Start(c) == "start"
List(e, x) == IF e.single THEN <<x>> ELSE x
ShapeOK(o, x, single) == /\ IsArr(o)
              /\ IF single THEN o.shape = <<Len(x)>> ELSE o.shape = <<Len(x), Len(x[1])>> \/ (Len(x) = 1 /\ o.shape = <<Len(x[1])>>)
Res(o) == IF Len(o.shape) = 1 THEN <<o.v>> ELSE o.v
Near(u, v, s) == VClose(u, v, NMul(NTen(9), NMax(1, s)))
Scale(L, y) == NMul(NMul(10, MaxAbs(L)), VMaxAbs(y))
Verdict(s, e) ==
  CASE e.op = "direction" -> IF ~ShapeOK(e.out, e.x, e.single) THEN "the result does not have the shape of the input"
         ELSE IF \A i \in 1..Len(List(e, e.x)) : Near(MVec(e.l, Res(e.out)[i]), List(e, e.x)[i], Scale(e.l, Res(e.out)[i])) THEN "ok"
         ELSE "the direction is not mapped by the inverse of the correspondence"
    [] e.op = "plane" -> IF ~ShapeOK(e.out, e.x, e.single) THEN "the result does not have the shape of the input"
         ELSE IF \A i \in 1..Len(List(e, e.x)) : Near(Res(e.out)[i], MVec(Transp(e.l), List(e, e.x)[i]), Scale(e.l, List(e, e.x)[i])) THEN "ok"
         ELSE "the plane is not mapped by the transpose of the correspondence"
    [] e.op = "incidence" -> IF \A i \in 1..e.m : NClose(Dot(Res(e.nd)[i], Res(e.out)[i]), Dot(List(e, e.d)[i], List(e, e.p)[i]),
                                NMul(NTen(8), NMax(1, NMul(VMaxAbs(Res(e.nd)[i]), VMaxAbs(Res(e.out)[i]))))) THEN "ok"
                             ELSE "a direction and a plane do not keep their incidence"
    [] e.op = "correspondence kept" -> IF IsArr(e.out) /\ MEq(e.out.v, e.l) THEN "ok" ELSE "the correspondence is modified"
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
