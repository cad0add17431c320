--------------------------------- MODULE T_C17 ----------------------------------
(* Conformance for C17: a recorded direct search against the exhaustive answer.  *)
EXTENDS Search, FiniteSets, Conform
VARIABLES k, l, st
Start(c) == "start"
IsIntMatOf(L, n) == IsMat(L, n, n) /\ MIsInt(L)
Search(e) ==
  LET n == Len(e.e1)
      G1 == MTrunc(Gram(e.e1), 120)
      G2 == MTrunc(Gram(e.e2), 120)
      G2i == MInv(G2)
      S == e.sols
      m == Len(S)
      ds(i) == S[i].d
      dn == ds(e.nsol)
      A1 == Aut(G1)
      A2 == Aut(G2)
      E == TLCEval([i \in 1..m |-> Equiv(S[i].l, A1, A2)])
      W == Within(G1, G2, NSub(NMul(dn, NSub(1, NTen(8))), NTen(8)))
      U == UNION { E[i] : i \in 1..m }
  IN Clauses(<< <<"the search fails", e.out.t = "list">>,
                <<"fewer solutions than requested", m >= e.nsol>>,
                <<"a correspondence is not an integer matrix", \A i \in 1..m : IsIntMatOf(S[i].l, n)>>,
                <<"a correspondence is singular", \A i \in 1..m : ~NEq(Det(S[i].l), 0)>>,
                <<"a distance is not that of its correspondence", \A i \in 1..m : NCloseRel(S[i].d, CauchyG(S[i].l, G1, G2i), NTen(8))>>,
                <<"the solutions are not sorted", \A i \in 1..(m - 1) : NLe(ds(i), NAdd(ds(i + 1), NMul(NTen(9), NMax(1, ds(i + 1)))))>>,
                <<"two solutions are equivalent", \A i \in 2..m : \A j \in 1..(i - 1) : ~(S[i].l \in E[j])>>,
                <<"a closer inequivalent correspondence exists", NLe(dn, NTen(7)) \/ W \subseteq U>> >>)
Verdict(s, e) ==
  CASE e.op = "search" -> Search(e)
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
