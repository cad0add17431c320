-------------------------------- MODULE Quartic ---------------------------------
(* The quartic form f(L) = |F^T F|^2, F = A L M^-1, that bounds the direct search. *)
(* Its minimum over |L| = 1 is 1 / Sum_k (p_k q_k)^2, p and q the eigenvalues of   *)
(* (A^T A)^-1 and M^T M in the same order: |L|^2 = tr((A A^T)^-1 F M M^T F^T) is   *)
(* at most Sum s_k^2 p_k q_k (s: singular values of F, von Neumann), hence at most *)
(* (Sum s_k^4)^(1/2) (Sum (p_k q_k)^2)^(1/2), with equality for a suitable L.      *)
EXTENDS LinAlg
Form(L, A, Minv) == LET F == MMul(A, MMul(L, Minv))
                        C == MulT(F, F)
                    IN SumN(LAMBDA i : Norm2(C[i]), Len(C))
Frob2(L) == SumN(LAMBDA i : Norm2(L[i]), Len(L))
MinFrom(p, q) == NDiv(1, SumN(LAMBDA k : NSq(NMul(p[k], q[k])), Len(p)))
(* the k-th smallest eigenvalue of the symmetric positive definite S, by bisection *)
RECURSIVE Bisect(_, _, _, _, _)
Bisect(S, k, lo, hi, n) ==
  IF n = 0 THEN NDiv(NAdd(lo, hi), 2)
  ELSE LET m == NDiv(NAdd(lo, hi), 2)
       IN IF EigBelow(S, m) >= k THEN Bisect(S, k, lo, m, n - 1) ELSE Bisect(S, k, m, hi, n - 1)
Eigs(S, n) == VecOf(Len(S), LAMBDA k : Bisect(S, k, 0, NAdd(Tr(S), 1), n))
Minimum(A, M) == MinFrom(Eigs(Sym(MTrunc(MInv(Gram(A)), 60)), 36), Eigs(Sym(MTrunc(Gram(M), 60)), 36))
(* f <= (sqrt n + sqrt d)^2 for the Cauchy distance d, without square roots        *)
Within(f, n, d) == LET e == NSub(f, NAdd(n, d)) IN NLe(e, 0) \/ NLe(NSq(e), NMul(4 * n, d))
=================================================================================
