-------------------------------- MODULE Lattices --------------------------------
(* Lattices given by a basis matrix E (columns), their equality, their symmetry  *)
(* groups as integer matrices and as orthogonal matrices (C03, C04, C05).        *)
EXTENDS LinAlg

TolSame == NTen(9)      \* deviations the code must treat as rounding
TolDiff == NTen(3)      \* deviations the code must not ignore
(* the change of basis from E1 to E2                                             *)
Change(E1, E2) == MMul(MInv(E1), E2)
(* same point set, decided with a gap: "yes", "no", or "close" (not judged)      *)
SameSet(E1, E2) ==
  LET A == Change(E1, E2)
      d == NAbs(Det(MRint(A)))
  IN IF MNearInt(A, NMin(NTen(5), NMul(TolSame, NMax(1, MaxAbs(A))))) THEN (IF NEq(d, 1) THEN "yes" ELSE "no")
     ELSE IF MNearInt(A, NMax(NMul(2, NTen(4)), NMul(NTen(7), MaxAbs(A)))) THEN "close" ELSE "no"
(* E is a basis: "yes", "no" (exactly singular), or "close" to singular          *)
RECURSIVE ProdNorm2(_, _)
ProdNorm2(E, j) == IF j = 0 THEN 1 ELSE NMul(Norm2(Col(E, j)), ProdNorm2(E, j - 1))
Basis(E) == LET d == Det(E)
            IN IF NEq(d, 0) THEN "no"
               ELSE IF NLe(ProdNorm2(E, Len(E)), NMul(NSq(d), NTenPow(12))) THEN "yes" ELSE "close"

(* Q (orthogonal) maps the lattice of E onto itself                              *)
OrthDev(Q) == MaxAbs(MSub(Gram(Q), Id(Rows(Q))))
IsOrth(Q) == IF NLe(OrthDev(Q), TolSame) THEN "yes" ELSE IF NLe(OrthDev(Q), TolDiff) THEN "close" ELSE "no"
InPointGroup(E, Q) ==
  LET o == IsOrth(Q)
      s == SameSet(E, MMul(Q, E))
  IN IF o = "no" \/ s = "no" THEN "no" ELSE IF o = "yes" /\ s = "yes" THEN "yes" ELSE "close"
InLatticeGroup(E, M) ==
  LET i == IF MNearInt(M, TolSame) THEN "yes" ELSE IF MNearInt(M, TolDiff) THEN "close" ELSE "no"
      o == IsOrth(MMul(E, MMul(M, MInv(E))))
  IN IF i = "no" \/ o = "no" THEN "no" ELSE IF i = "yes" /\ o = "yes" THEN "yes" ELSE "close"

(* integer matrix of the symmetry Q in the basis E                               *)
Zmat(E, Q) == MRint(MMul(MInv(E), MMul(Q, E)))
(* finite groups of integer matrices (as sets)                                   *)
IsGroup(S, n) == /\ Id(n) \in S
                 /\ \A a, b \in S : MMul(a, b) \in S
                 /\ \A a \in S : \E b \in S : MMul(a, b) = Id(n)
(* the metric-preserving integer matrices: every symmetry of a lattice.  Column  *)
(* j of such a matrix is an integer vector v with v.G.v = G[j][j], whose entries *)
(* are bounded by v_i^2 <= G[j][j] * (G^-1)[i][i].                               *)
Bnd(G, Gi, i, j) == NFloor(NSqrt(NAdd(NMul(NMul(G[j][j], Gi[i][i]), Rat(1000001, 1000000)), NTen(9))))
Quad(G, u, v) == Dot(u, MVec(G, v))
Eps(G) == NMul(NTen(7), MaxAbs(G))
CloseTo(a, b, eps) == NLe(NAbs(NSub(a, b)), eps)
Box(G, Gi, j) ==
  LET n == Rows(G)
      b(i) == Bnd(G, Gi, i, j)
  IN IF n = 2 THEN { <<x, y>> : x \in (-b(1))..b(1), y \in (-b(2))..b(2) }
     ELSE { <<x, y, z>> : x \in (-b(1))..b(1), y \in (-b(2))..b(2), z \in (-b(3))..b(3) }
Images(G, Gi, j) == LET e == Eps(G) IN { v \in Box(G, Gi, j) : CloseTo(Quad(G, v, v), G[j][j], e) }
FromCols(c) == Transp(c)
Aut(G) ==
  LET n == Rows(G)
      Gi == MInv(G)
      e == Eps(G)
      I(j) == Images(G, Gi, j)
  IN IF n = 2
     THEN { FromCols(p) : p \in { c \in I(1) \X I(2) : CloseTo(Quad(G, c[1], c[2]), G[1][2], e) } }
     ELSE LET P12 == { c \in I(1) \X I(2) : CloseTo(Quad(G, c[1], c[2]), G[1][2], e) }
          IN UNION { { FromCols(<<c[1], c[2], w>>) : w \in { w \in I(3) : CloseTo(Quad(G, c[1], w), G[1][3], e) /\ CloseTo(Quad(G, c[2], w), G[2][3], e) } } : c \in P12 }
=================================================================================
