--------------------------------- MODULE T_C26 ----------------------------------
(* Conformance for C26.                                                          *)
EXTENDS Rank1, Conform
VARIABLES k, l, st
Start(c) == "start"
Near(C, t) == EigBelow(C, NAdd(1, t)) >= 2 /\ EigBelow(C, NSub(1, t)) <= 1
Far(C) == ~MClose(C, Id(3), NTen(6))
(* the accuracy asked of a solution, which is the finer the closer C is to 1     *)
Fine(C) == NMin(NMul(NTen(6), NMax(1, MaxAbs(C))), NMul(Rat(1, 10), MaxAbs(MSub(C, Id(3)))))
Saddle(C, d) == EigBelow(C, NSub(1, d)) = 1 /\ EigBelow(C, NAdd(1, d)) = 2
(* o: a 2 x 2 x 3 array ((b1, m1), (b2, m2))                                     *)
Solves(o, C, tol) ==
  IF ~IsArr(o) \/ o.shape # <<2, 2, 3>> THEN "not two pairs (b, m)"
  ELSE IF \E i \in 1..2 : ~NClose(Norm2(o.v[i][2]), 1, NTen(9)) THEN "m is not a unit vector"
  ELSE IF \E i \in 1..2 : ~MClose(Gram(Step1(o.v[i][1], o.v[i][2])), C, tol) THEN "(1 + m b)(1 + b m) is not C"
  ELSE IF Saddle(C, NTen(3)) /\ MClose(Outer(o.v[1][1], o.v[1][2]), Outer(o.v[2][1], o.v[2][2]), NTen(5)) THEN "the two solutions are the same"
  ELSE "ok"
Asym(A) == MaxAbs(MSub(A, Transp(A)))
SurePD(A) == ~NEq(MaxAbs(A), 0) /\ MEq(A, Transp(A)) /\ EigBelow(A, NMul(NTen(9), MaxAbs(A))) = 0
SureNotPD(A) == NLe(NMul(5, NTen(5)), Asym(A)) \/ EigBelow(Sym(A), NNeg(NMul(NTen(9), MaxAbs(A)))) > 0 \/ NEq(MaxAbs(A), 0)
Verdict(s, e) ==
  CASE e.op = "isCompatible" ->
         IF ~IsBool(e.out) THEN "the answer is not a boolean"
         ELSE IF e.out.v = FALSE /\ Within1(e.a, e.b, NTen(6)) THEN "compatible deformations are called incompatible"
         ELSE IF e.out.v = TRUE /\ ~Within1(e.a, e.b, NTen(4)) THEN "incompatible deformations are called compatible"
         ELSE "ok"
    [] e.op = "not arrays" -> IF IsF(e.out) THEN "ok" ELSE "something that is not an array is called compatible"
    [] e.op \in {"AM_Solver", "solve_rank1"} ->
         IF ~e.same THEN "the tensor passed in is changed"
         ELSE IF ~Far(e.c) THEN "ok"
         ELSE IF Near(e.c, NMin(NTen(8), NMul(NTen(4), MaxAbs(MSub(e.c, Id(3)))))) THEN Solves(e.out, e.c, Fine(e.c))
         ELSE IF e.op = "AM_Solver" /\ ~Near(e.c, Rat(105, 1000000)) THEN (IF IsNone(e.out) \/ IsExc(e.out) THEN "ok" ELSE "an incompatible tensor gets a solution")
         ELSE "ok"
    [] e.op = "pos_def_sym" ->
         IF ~IsBool(e.out) THEN "the answer is not a boolean"
         ELSE IF e.shape # <<3, 3>> THEN (IF e.out.v THEN "something that is not a 3 x 3 array is called a stretch tensor" ELSE "ok")
         ELSE IF e.out.v = FALSE /\ SurePD(e.a) THEN "a stretch tensor is rejected"
         ELSE IF e.out.v = TRUE /\ SureNotPD(e.a) THEN "a matrix that is not positive definite symmetric is called a stretch tensor"
         ELSE "ok"
    [] e.op = "refuse" -> IF SureNotPD(e.a) /\ ~Raises(e.out, {"TypeError"}) /\ e.out.t # "none" THEN "the solver accepts a matrix that is not positive definite symmetric" ELSE "ok"
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
