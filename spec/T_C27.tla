--------------------------------- MODULE T_C27 ----------------------------------
(* Conformance for C27: e.l, e.m batches of e.d x e.d matrices.                  *)
EXTENDS Batch, Conform
VARIABLES k, l, st
Start(c) == "start"
Tol(x) == NMul(NTen(9), NMax(1, NAbs(x)))
IsBatch(o, n, w) == IsArr(o) /\ o.shape = <<n, w>>
Size(x) == NMax(1, MaxAbs(x))
Near(o, w, sc) == MClose(o.v, w, NMul(NTen(11), sc))
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE NMul(x, Pow(x, n - 1))
(* the numbers ev are the eigenvalues of the symmetric A, with multiplicity      *)
Eigens(A, ev, t) == \A i \in 1..Len(ev) :
    LET below == Len(SelectSeq(ev, LAMBDA x : NLt(x, NAdd(ev[i], t))))
        upto == Len(SelectSeq(ev, LAMBDA x : NLt(x, NSub(ev[i], t))))
    IN EigBelow(A, NAdd(ev[i], NMul(2, t))) >= below /\ EigBelow(A, NSub(ev[i], NMul(2, t))) <= upto
(* any square A: the numbers are the roots of its characteristic polynomial      *)
RECURSIVE Prod(_, _, _)
Prod(x, ev, n) == IF n = 0 THEN 1 ELSE NMul(NSub(x, ev[n]), Prod(x, ev, n - 1))
Roots(A, ev, t) == \A x \in 0..Len(ev) : NClose(Prod(x, ev, Len(ev)), Det(MSub(MScale(x, Id(Len(A))), A)), NMul(t, Pow(NMax(1, NAdd(x, MaxAbs(A))), Len(A))))
AllEigens(A, ev, t) == IF Symmetric(A) THEN Eigens(A, ev, t) ELSE Roots(A, ev, t)
Verdict(s, e) ==
  CASE e.op = "mat_dot" ->
         IF ~IsBatch(e.out, Len(e.l), e.d * e.d) THEN "not a batch of matrices"
         ELSE IF ~Near(e.out, BDot(e.l, e.m, e.d), NMul(Size(e.l), Size(e.m))) THEN "wrong product" ELSE "ok"
    [] e.op = "mat_T" ->
         IF ~IsBatch(e.out, Len(e.l), e.d * e.d) THEN "not a batch of matrices"
         ELSE IF ~MEq(e.out.v, BT(e.l, e.d)) THEN "wrong transpose" ELSE "ok"
    [] e.op = "mat_trace" ->
         IF ~IsArr(e.out) \/ e.out.shape # <<Len(e.l)>> THEN "not one trace per matrix"
         ELSE IF ~VClose(e.out.v, BTr(e.l, e.d), NMul(NTen(11), Size(e.l))) THEN "wrong trace" ELSE "ok"
    [] e.op = "mat_det" ->
         IF ~IsArr(e.out) \/ e.out.shape # <<Len(e.l)>> THEN "not one determinant per matrix"
         ELSE IF ~VClose(e.out.v, BDet(e.l, e.d), NMul(NTen(10), Pow(Size(e.l), e.d))) THEN "wrong determinant" ELSE "ok"
    [] e.op = "inputs" -> IF e.same THEN "ok" ELSE "the batch passed in is changed"
    [] e.op = "cofactor" ->
         IF ~IsArr(e.out) \/ e.out.shape # <<e.d, e.d>> THEN "not a matrix"
         ELSE IF ~MClose(e.out.v, Cof(e.a), NMul(NTen(10), Pow(Size(e.a), e.d))) THEN "wrong cofactor matrix" ELSE "ok"
    [] e.op = "unique_rows" ->
         IF ~IsArr(e.out) \/ ~IsArr(e.rows) \/ Len(e.out.v) # Len(e.rows.v) THEN "not rows and their places"
         ELSE IF ~OneEach(e.a, [i \in 1..Len(e.out.v) |-> e.out.v[i] + 1]) THEN "the places are not one per distinct row"
         ELSE IF \E i \in 1..Len(e.out.v) : ~VEq(e.rows.v[i], e.a[e.out.v[i] + 1]) THEN "a row is not the one at its place"
         ELSE "ok"
    [] e.op = "tuple" ->
         LET R == e.s..(e.e - 1) IN
         IF ~IsArr(e.out) THEN "not a list of triples"
         ELSE IF { e.out.v[i] : i \in 1..Len(e.out.v) } # { <<a, b, c>> : a \in R, b \in R, c \in R } \/ Len(e.out.v) # Cardinality(R) * Cardinality(R) * Cardinality(R) THEN "not every triple once"
         ELSE "ok"
    [] e.op = "mat_eig" ->
         IF ~IsBatch(e.out, Len(e.l), e.d) THEN "not the eigenvalues of every matrix"
         ELSE IF \E i \in 1..Len(e.l) : ~AllEigens(Unflat(e.l[i], e.d), e.out.v[i], NTen(7)) THEN "wrong eigenvalues" ELSE "ok"
    [] e.op = "eigSort" ->
         IF ~IsArr(e.out) \/ e.out.shape # <<3>> \/ ~IsArr(e.vec) \/ e.vec.shape # <<3, 3>> THEN "not eigenvalues and eigenvectors"
         ELSE IF ~Eigens(e.a, e.out.v, NTen(7)) \/ NLt(e.out.v[2], e.out.v[1]) \/ NLt(e.out.v[3], e.out.v[2]) THEN "not the eigenvalues in increasing order"
         ELSE IF \E i \in 1..3 : ~VClose(MVec(e.a, e.vec.v[i]), VScale(e.out.v[i], e.vec.v[i]), NTen(7)) \/ ~NClose(Norm2(e.vec.v[i]), 1, NTen(7)) THEN "not the unit eigenvectors"
         ELSE "ok"
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
