--------------------------------- MODULE T_C20 ----------------------------------
(* Conformance for C20.  An event is one sublattice search: the Hermite forms    *)
(* that were optimised, the candidates each of them produced (in the order the   *)
(* code started them), and the solutions that came out.                          *)
EXTENDS HNFOrbits, Search, Conform
VARIABLES k, l, st
Start(c) == "start"
Set(s) == { s[i] : i \in 1..Len(s) }
Near(x) == NLe(NDistInt(x), NTen(8))
Sizes(e) ==
  LET r == NTrunc(NDiv(NAbs(Det(e.e2)), NAbs(Det(e.e1))), 80)
      lo == NMul(NSub(1, e.vol), r)
      hi == NMul(NAdd(1, e.vol), r)
      a == NMax(1, NNeg(NFloor(NNeg(lo))))
      b == NFloor(hi)
  IN IF NLe(a, b) THEN <<Near(lo) \/ Near(hi), a..b>>
     ELSE <<Near(lo) \/ Near(hi) \/ Near(NAdd(r, NDiv(1, 2))), { NMax(1, NRint(r)) }>>
Search1(e) ==
  LET n == Len(e.e1)
      A1 == Special(Aut(MTrunc(Gram(e.e1), 120)))
      A2 == Special(Aut(MTrunc(Gram(e.e2), 120)))
      z == Sizes(e)
      H == UNION { HNFsOfDet(d, n) : d \in z[2] }
      G == Set(e.given)
      S == e.sols
      m == Len(S)
      tot(x) == MMul(x.h, x.l)
      Eq == TLCEval([i \in 1..m |-> Equiv(tot(S[i]), A1, A2)])
      C == e.cands                      \* sequence of [h, l, d]
      dn == S[e.nsol].d
      slack(x) == IF e.exact THEN 0 ELSE NMul(NTen(9), NMax(1, x))
  IN Clauses(<<
     <<"the search fails", e.out.t = "list">>,
     <<"sublattices of a wrong size are searched", z[1] \/ G \subseteq H>>,
     <<"a sublattice is left out", z[1] \/ \A h \in H : \E g \in G : Related(h, g, A1)>>,
     <<"equivalent sublattices are searched", \A g, h \in G : g # h => ~Related(g, h, A1)>>,
     <<"a solution is not one of the candidates", \A i \in 1..m : \E j \in 1..Len(C) :
           MEq(C[j].h, S[i].h) /\ MEq(C[j].l, S[i].l) /\ NCloseRel(C[j].d, S[i].d, NTen(9))>>,
     <<"the solutions are not sorted", \A i \in 1..(m - 1) : NLe(S[i].d, NAdd(S[i + 1].d, slack(S[i + 1].d)))>>,
     <<"two solutions are equivalent", \A i \in 2..m : \A j \in 1..(i - 1) : ~(tot(S[i]) \in Eq[j])>>,
     <<"a candidate is lost although fewer solutions than requested are returned",
           m >= e.nsol \/ \A j \in 1..Len(C) : \E i \in 1..m : tot(C[j]) \in Eq[i]>>,
     <<"a closer candidate is lost", m < e.nsol \/ \A j \in 1..Len(C) : NLt(C[j].d, NSub(dn, slack(dn))) => \E i \in 1..m : tot(C[j]) \in Eq[i]>>,
     <<"a candidate tied with the last solution is lost", m < e.nsol \/ ~e.exact \/ \A j \in 1..Len(C) : NEq(C[j].d, dn) => \E i \in 1..m : tot(C[j]) \in Eq[i]>>,
     <<"more solutions than requested and tied are returned", m <= e.nsol \/ NLe(S[m].d, NAdd(dn, slack(dn)))>> >>)
Verdict(s, e) ==
  CASE e.op = "search" -> Search1(e)
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
