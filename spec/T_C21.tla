--------------------------------- MODULE T_C21 ----------------------------------
(* Conformance for C21: a recorded optimisation over lattice invariant shears.   *)
EXTENDS Shears, Conform
VARIABLES k, l, st
Start(c) == "start"
Opt(e) ==
  LET n == Len(e.e1)
      E1 == MTrunc(e.e1, 100)
      E2 == MTrunc(e.e2, 100)
      E2i == MTrunc(MInv(E2), 120)
      G1 == MTrunc(Gram(E1), 120)
      G2 == MTrunc(Gram(E2), 120)
      G2i == MTrunc(MInv(G2), 140)
      m == Len(e.l)
      A1 == Special(Aut(G1))
      A2 == Special(Aut(G2))
      Eq == TLCEval([i \in 1..m |-> Equiv(e.l[i], A1, A2)])
      true(i) == CASE e.dist = "Cauchy" -> NCloseRel(e.d[i], CauchyG(e.l[i], G1, G2i), NTen(8))
                   [] e.dist = "Ericksen" -> NCloseRel(e.d[i], EricksenG(e.l[i], G1, G2), NTen(8))
                   [] OTHER -> IsStrain(e.d[i], e.l[i], E1, E2i, NTen(6))
      eps(x) == NMul(NTen(7), NMax(1, x))
      \* the search ended at one of the best solutions or at an equivalent of it
      tied == { i \in 1..m : NLe(e.d[i], NAdd(e.d[1], eps(e.d[1]))) }
      Ends == {e.l[1]} \cup { MMul(e.l[i], q) : i \in tied, q \in A2 }
      Ball(X) == BallAround({X}, Transvections(n), 3)
      U == UNION { Eq[i] : i \in 1..m }
      far(L, d) == AtLeast(e.dist, L, NSub(d, eps(d)), E1, E2i, G1, G2, G2i)
  IN Clauses(<<
     <<"the optimisation fails", e.out.t = "list">>,
     <<"fewer solutions than requested", m >= e.nsol /\ Len(e.d) = m>>,
     <<"a solution is not an integer matrix of determinant 1", \A i \in 1..m : IsMat(e.l[i], n, n) /\ MIsInt(e.l[i]) /\ NEq(Det(e.l[i]), 1)>>,
     <<"a distance is not that of its solution", \A i \in 1..m : true(i)>>,
     <<"the solutions are not sorted", \A i \in 1..(m - 1) : NLe(e.d[i], NAdd(e.d[i + 1], NMul(NTen(9), NMax(1, e.d[i + 1]))))>>,
     <<"two solutions are equivalent", \A i \in 2..m : \A j \in 1..(i - 1) : ~(e.l[i] \in Eq[j])>>,
     <<"more solutions than requested and tied are returned", IF m <= e.nsol THEN TRUE ELSE NLe(e.d[m], NAdd(e.d[e.nsol], eps(e.d[e.nsol])))>>,
     <<"a closer matrix lies within three shears of the best solution", \E X \in Ends : \A L \in Ball(X) : far(L, e.d[1])>>,
     <<"a closer inequivalent matrix within three shears of the best is left out", IF m < e.nsol THEN TRUE ELSE \E X \in Ends : \A L \in Ball(X) : L \in U \/ far(L, e.d[e.nsol])>> >>)
Verdict(s, e) ==
  CASE e.op = "opt" -> Opt(e)
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
