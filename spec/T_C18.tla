--------------------------------- MODULE T_C18 ----------------------------------
(* Conformance for C18: every field of every solution of a recorded search.      *)
EXTENDS Solution, Lattices, Conform
VARIABLES k, l, st
Start(c) == "start"
IsIM(o, n) == IsArr(o) /\ IsMat(o.v, n, n) /\ MIsInt(o.v)
IsRM(o, n) == IsArr(o) /\ IsMat(o.v, n, n)
Fields(e, s) ==
  LET n == Len(e.e1)
      L == IF e.how = "hnf" THEN MMul(s.h.v, s.l.v) ELSE s.l.v
      E1 == MTrunc(e.e1, 100)
      E2 == MTrunc(e.e2, 100)
      C == MTrunc(RightCG(L, E1, E2), 120)
  IN Clauses(<<
     <<"l is not an integer matrix", IsIM(s.l, n)>>,
     <<"h is not a Hermite normal form", e.how # "hnf" \/ (IsIM(s.h, n) /\ IsHNF(s.h.v, n))>>,
     <<"l is not unimodular", e.how # "hnf" \/ NEq(NAbs(Det(s.l.v)), 1)>>,
     <<"the correspondence is singular", ~NEq(Det(L), 0)>>,
     <<"an orientation preserving equivalent exists but is not reported", e.how # "direct" \/ NLt(0, Det(L)) \/ ~CanOrient(L, Aut(MTrunc(Gram(E1), 120)), Aut(MTrunc(Gram(E2), 120)))>>,
     <<"the distance is not that of the correspondence", IsNum(s.d) /\
         (CASE e.dist = "Cauchy" -> NCloseRel(s.d.v, Cauchy(L, E1, MInv(E2)), NTen(8))
            [] e.dist = "Ericksen" -> NCloseRel(s.d.v, Ericksen(L, E1, E2), NTen(8))
            [] OTHER -> IsStrain(s.d.v, L, E1, MInv(E2), NTen(6)))>>,
     <<"cor is not the correspondence in the conventional bases", IsRM(s.cor, n) /\ MClose(s.cor.v, ConvCor(L, E1, e.k1, E2, e.k2), NTen(7))>>,
     <<"u is not the (real) stretch of the correspondence", IsRM(s.u, n) /\ IsRootOf(MTrunc(s.u.v, 100), C)>>,
     <<"lams are not the sorted principal stretches", IsArr(s.lams) /\ IsVec(s.lams.v, n) /\ IsRM(s.u, n) /\ AreEigs(s.lams.v, MTrunc(s.u.v, 100))>> >>)
RECURSIVE AllFields(_, _)
AllFields(e, i) == IF i > Len(e.sols) THEN "ok" ELSE LET v == Fields(e, e.sols[i]) IN IF v = "ok" THEN AllFields(e, i + 1) ELSE v
Verdict(s, e) ==
  CASE e.op = "search" -> Clauses(<< <<"the search fails", e.out.t = "list">>, <<"no solution", Len(e.sols) > 0>> >>)
    [] e.op = "fields" -> AllFields(e, 1)
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
