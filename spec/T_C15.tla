--------------------------------- MODULE T_C15 ----------------------------------
(* Conformance for C15: every distance returned is compared with its definition  *)
(* evaluated exactly on the logged matrices.                                     *)
EXTENDS Distance, Conform
VARIABLES k, l, st
Start(c) == "start"
Near(a, b) == NCloseRel(a, b, NTen(9))
V(e) == e.out.v
IsSym(M, E) == LET G == Gram(E) IN MClose(MMul(Transp(M), MMul(G, M)), G, NMul(NTen(9), MaxAbs(G)))
Verdict(s, e) ==
  CASE e.op = "Cauchy" -> IF IsNum(e.out) /\ Near(V(e), Cauchy(e.l, e.e1, e.e2i)) THEN "ok" ELSE "the Cauchy distance is not the squared norm of Cinv - I"
    [] e.op = "Ericksen" -> IF IsNum(e.out) /\ Near(V(e), Ericksen(e.l, e.e1, e.e2)) THEN "ok" ELSE "the Ericksen distance is wrong"
    [] e.op = "strain" -> IF IsNum(e.out) /\ IsStrain(V(e), e.l, e.e1, e.e2i, NTen(8)) THEN "ok" ELSE "the strain distance is wrong"
    [] e.op = "invariant" -> IF ~(IsSym(e.m1, e.e1) /\ IsSym(e.m2, e.e2)) THEN "ok"
                             ELSE IF IsNum(e.out) /\ IsNum(e.d0) /\ NCloseRel(e.out.v, e.d0.v, NTen(7)) THEN "ok" ELSE "a distance changes under symmetries of the lattices"
    [] e.op = "batch" ->
         Clauses(<< <<"the batch does not return one distance per correspondence", IsArr(e.out) /\ IsArr(e.one) /\ e.out.shape = <<e.n>>>>,
            <<"the batch differs from one-by-one evaluation", \A i \in 1..e.n : Near(e.out.v[i], e.one.v[i])>>,
            <<"a batched distance is not the Cauchy distance", \A i \in 1..e.n : Near(e.out.v[i], Cauchy(e.xs[i], e.e1, e.e2i))>> >>)
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
