--------------------------------- MODULE T_C22 ----------------------------------
(* Conformance for C22: recorded reductions and orthogonalisations.              *)
EXTENDS Reduction, HNF, Conform
VARIABLES k, l, st
Start(c) == "start"
Rl(x, t) == NMul(t, NMax(NTen(9), MaxAbs(x)))
Unit(M, n) == \A i \in 1..n : \A j \in 1..n : (j > i => NEq(M[i][j], 0)) /\ (j = i => NEq(M[i][j], 1))
Verdict(s, e) ==
  LET n == Len(e.e)
      R == e.out.v
      A == MMul(MInv(e.e), R)
      Ai == MRint(A)
  IN CASE e.op = "lll" ->
            Clauses(<< <<"no square matrix is returned", IsArr(e.out) /\ IsMat(R, n, n)>>,
                       <<"the result is not a basis of the same lattice", MNearInt(A, NTen(6)) /\ NEq(NAbs(Det(Ai)), 1) /\ MClose(MMul(e.e, Ai), R, Rl(e.e, NTen(8)))>>,
                       <<"the orientation changed", NEq(Det(Ai), 1)>>,
                       <<"the result is not size-reduced", SizeReduced(MTrunc(R, 100), NTen(7))>>,
                       <<"the exchange condition fails", \A i \in 1..(n - 1) : Exchange(MTrunc(R, 100), i, NTen(7))>>,
                       <<"the input is modified", e.same>> >>)
       [] e.op = "gs" ->
            LET O == e.o
                M == e.m IN
            Clauses(<< <<"Gram-Schmidt fails", e.out.t = "list" /\ IsMat(O, n, n) /\ IsMat(M, n, n)>>,
                       <<"the coefficients are not unit lower triangular", Unit(M, n)>>,
                       <<"the columns are not orthogonal", LET G == Gram(O) IN \A i, j \in 1..n : i # j => NLe(NSq(G[i][j]), NMul(NTen(16), NMul(G[i][i], G[j][j])))>>,
                       <<"the basis is not reproduced", MClose(MMul(O, Transp(M)), e.e, Rl(e.e, NTen(8)))>>,
                       <<"the input is modified", e.same>> >>)
       [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
