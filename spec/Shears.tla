--------------------------------- MODULE Shears ---------------------------------
(* Lattice invariant shears: SL(n, Z) is generated by the transvections          *)
(* I +- e_i e_j^T.  The ball of radius k around L: all L T1 ... Tj with j <= k.  *)
EXTENDS Search
Transvections(n) == { Mat(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE IF i = t[1] /\ j = t[2] THEN t[3] ELSE 0) :
                      t \in { x \in (1..n) \X (1..n) \X {1, -1} : x[1] # x[2] } }
RECURSIVE BallAround(_, _, _)
BallAround(S, T, k) == IF k = 0 THEN S ELSE BallAround(S \cup { MMul(L, t) : L \in S, t \in T }, T, k - 1)
(* the strain distance of L is at least d                                        *)
StrainAtLeast(L, E1, E2i, d) ==
  LET n == Rows(L)
      F == MTrunc(Finv(L, E1, E2i), 100)
      C == MTrunc(MulT(F, F), 100)
      i1 == Tr(C)
      t == NDiv(NSub(NAdd(i1, n), d), 2)
      e == NAbs(Det(F))
  IN IF n = 2 THEN NLe(0, t) /\ NLe(NAdd(i1, NMul(2, e)), NSq(t))
     ELSE LET h == NDiv(NSub(NSq(t), i1), 2)
          IN NLe(0, t) /\ NLe(0, h) /\ NLe(NAdd(I2(C), NMul(2, NMul(e, t))), NSq(h))
(* L is at least as far as d under the distance named w; G1, G2, G2i metrics      *)
AtLeast(w, L, d, E1, E2i, G1, G2, G2i) ==
  CASE w = "Cauchy" -> NLe(d, CauchyG(L, G1, G2i))
    [] w = "Ericksen" -> NLe(d, EricksenG(L, G1, G2))
    [] OTHER -> StrainAtLeast(L, E1, E2i, d)
=================================================================================
