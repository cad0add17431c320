-------------------------------- MODULE Distance --------------------------------
(* Distances between a sublattice E1.L and a lattice E2 (C15, C17, C18, C21).    *)
(* F.E1.L = E2, so F^-1 = E1.L.E2^-1 and C^-1 = F^-1.F^-T.                       *)
EXTENDS LinAlg
Finv(L, E1, E2i) == MMul(E1, MMul(L, E2i))
Cinv(L, E1, E2i) == LET F == Finv(L, E1, E2i) IN MulT(F, F)
Frob2(A) == SumN(LAMBDA i : Norm2(A[i]), Rows(A))
Cauchy(L, E1, E2i) == Frob2(MSub(Cinv(L, E1, E2i), Id(Rows(L))))
(* the same from the metrics: P = L^T G1 L G2^-1                                 *)
CauchyG(L, G1, G2i) == LET P == MMul(MMul(Transp(L), MMul(G1, L)), G2i)
                       IN NAdd(NSub(Tr(MMul(P, P)), NMul(2, Tr(P))), Rows(L))
Ericksen(L, E1, E2) == LET M == MSub(MMul(Transp(L), MMul(Gram(E1), L)), Gram(E2)) IN NDiv(Frob2(M), Frob2(Gram(E2)))
EricksenG(L, G1, G2) == NDiv(Frob2(MSub(MMul(Transp(L), MMul(G1, L)), G2)), Frob2(G2))
(* strain: tr C^-1 - 2 tr sqrt(C^-1) + n.  t is the trace of the square root     *)
(* iff its elementary symmetric functions fit: t >= 0, e2 = (t^2 - I1)/2 >= 0    *)
(* and  e2 = |det F^-1| (2D)  or  e2^2 = I2 + 2 t |det F^-1| (3D)                *)
I2(C) == NAdd(NAdd(NSub(NMul(C[1][1], C[2][2]), NSq(C[1][2])), NSub(NMul(C[1][1], C[3][3]), NSq(C[1][3]))), NSub(NMul(C[2][2], C[3][3]), NSq(C[2][3])))
IsStrain(d, L, E1, E2i, tol) ==
  LET C == MTrunc(Cinv(L, E1, E2i), 160)
      n == Rows(L)
      i1 == Tr(C)
      t == NDiv(NSub(NAdd(i1, n), d), 2)
      e2 == NDiv(NSub(NSq(t), i1), 2)
      e3 == NAbs(Det(MTrunc(Finv(L, E1, E2i), 160)))
      scl == NMul(tol, NMax(1, NSq(i1)))
  IN /\ NLe(NNeg(tol), t) /\ NLe(NNeg(scl), e2)
     /\ IF n = 2 THEN NClose(e2, e3, scl) ELSE NClose(NSq(e2), NAdd(I2(C), NMul(NMul(2, t), e3)), scl)
=================================================================================
