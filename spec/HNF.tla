---------------------------------- MODULE HNF ----------------------------------
(* Hermite normal forms of full-rank integer matrices, sublattices and their     *)
(* orbits (properties C01, C02, C19).                                            *)
EXTENDS LinAlg

IsIntMat(A, n) == IsMat(A, n, n) /\ MIsInt(A)
(* lower triangular, positive diagonal, entries left of the diagonal in (-d, 0]  *)
IsHNF(H, n) ==
  /\ IsIntMat(H, n)
  /\ \A i \in 1..n : NLt(0, H[i][i])
  /\ \A i \in 1..n : \A j \in 1..n : j > i => NEq(H[i][j], 0)
  /\ \A i \in 1..n : \A j \in 1..(i - 1) : NLe(H[i][j], 0) /\ NLt(NNeg(H[i][i]), H[i][j])

Divs(n) == {i \in 1..n : n % i = 0}
RECURSIVE Prod(_, _)
Prod(d, i) == IF i = 0 THEN 1 ELSE d[i] * Prod(d, i - 1)
(* all rows that a HNF can have at position i when its diagonal entry is d       *)
RowSet(i, d, n) == { TLCEval([j \in 1..n |-> IF j < i THEN f[j] ELSE IF j = i THEN d ELSE 0]) : f \in [1..(i - 1) -> (1 - d)..0] }
RECURSIVE HRows(_, _, _)
HRows(d, i, n) == IF i = 0 THEN {<<>>} ELSE { Append(m, r) : m \in HRows(d, i - 1, n), r \in RowSet(i, d[i], n) }
(* the HNFs with a given diagonal / determinant                                  *)
HNFsOfDiag(d) == HRows(d, Len(d), Len(d))
DiagsOfDet(n, N) == { d \in [1..N -> Divs(n)] : Prod(d, N) = n }
HNFsOfDet(n, N) == UNION { HNFsOfDiag(d) : d \in DiagsOfDet(n, N) }
(* their number, by the well-known recursion over the divisors of n              *)
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(S \ {x}, f)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE HNFCount(_, _)
HNFCount(n, N) == IF N = 1 THEN 1 ELSE SumSet(Divs(n), [d \in Divs(n) |-> Pow(d, N - 1) * HNFCount(n \div d, N - 1)])

(* M = H L with L unimodular; such an H is unique, which makes it the normal     *)
(* form of the lattice spanned by the columns of M                               *)
IsDecomposition(M, H, L) == MEq(MMul(H, L), M) /\ MIsInt(L) /\ NEq(NAbs(Det(L)), 1)
IsNormalFormOf(H, M, n) == IsHNF(H, n) /\ Unimodular(MMul(MInv(H), M))
(* the columns of A and B span the same lattice                                  *)
SameLattice(A, B) == Unimodular(MMul(MInv(A), B))
=================================================================================
