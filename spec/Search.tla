--------------------------------- MODULE Search ---------------------------------
(* What a search for lattice correspondences must return.                        *)
(* G1, G2 are the metric tensors of the parent and of the product lattice, a     *)
(* correspondence is a nonsingular integer matrix L, its distance is CauchyG.    *)
(* D = |C - I|^2 <= d bounds every eigenvalue of C by 1 + sqrt(d), therefore     *)
(* x^T L^T G1 L x <= (1 + sqrt(d)) x^T G2 x for every integer vector x: columns, *)
(* and sums and differences of columns, of all L with D <= d lie in finite sets. *)
EXTENDS Lattices, Distance
ShortIn(G, Gi, b) ==      \* integer vectors v with v^T G v <= b
  LET n == Rows(G)
      c(i) == NFloor(NSqrt(NAdd(NMul(b, Gi[i][i]), NTen(6))))
      r(i) == LET m == c(i) IN (0 - m)..m
      B == CASE n = 1 -> { <<x>> : x \in r(1) }
             [] n = 2 -> { <<x, y>> : x \in r(1), y \in r(2) }
             [] OTHER -> { <<x, y, z>> : x \in r(1), y \in r(2), z \in r(3) }
  IN { v \in B : NLe(Quad(G, v, v), b) }
(* all nonsingular L with CauchyG <= d (d slightly enlarged by the caller)        *)
Within(G1, G2, d) ==
  LET n == Rows(G1)
      G1i == MInv(G1)
      G2i == MInv(G2)
      f == NAdd(NAdd(1, NSqrt(d)), NTen(9))
      S(j) == ShortIn(G1, G1i, NMul(f, G2[j][j]))
      pair(i, j, u, v) ==
        /\ NLe(Quad(G1, VAdd(u, v), VAdd(u, v)), NMul(f, NAdd(NAdd(G2[i][i], G2[j][j]), NMul(2, G2[i][j]))))
        /\ NLe(Quad(G1, VSub(u, v), VSub(u, v)), NMul(f, NSub(NAdd(G2[i][i], G2[j][j]), NMul(2, G2[i][j]))))
      T2 == { c \in S(1) \X S(2) : pair(1, 2, c[1], c[2]) }
      Ls == IF n = 1 THEN { << <<v[1]>> >> : v \in S(1) }
            ELSE IF n = 2 THEN { FromCols(c) : c \in T2 }
            ELSE LET S3 == S(3)
                     T3 == UNION { { <<c[1], c[2], w>> : w \in { w \in S3 : pair(1, 3, c[1], w) /\ pair(2, 3, c[2], w) } } : c \in T2 }
                 IN { FromCols(c) : c \in T3 }
  IN { L \in Ls : ~NEq(Det(L), 0) /\ NLe(CauchyG(L, G1, G2i), d) }
(* correspondences equivalent to L under the symmetries A1 of the parent and A2   *)
(* of the product                                                                *)
Equiv(L, A1, A2) == { MMul(m1, MMul(L, m2)) : m1 \in A1, m2 \in A2 }
Special(A) == { m \in A : NEq(Det(m), 1) }
=================================================================================
