------------------------------- MODULE Reduction --------------------------------
(* Gram-Schmidt and LLL-reducedness of the columns of E (C22).                   *)
EXTENDS LinAlg
(* C[i] is the sequence of orthogonalised columns 1..i                            *)
RECURSIVE Orth(_, _)
Orth(E, i) ==
  IF i = 0 THEN <<>>
  ELSE LET P == Orth(E, i - 1)
           v == Col(E, i)
           RECURSIVE Sub(_, _)
           Sub(w, j) == IF j = i THEN w ELSE Sub(VSub(w, VScale(NDiv(Dot(v, P[j]), Norm2(P[j])), P[j])), j + 1)
       IN Append(P, Sub(v, 1))
Mu(E, O, i, j) == NDiv(Dot(Col(E, i), O[j]), Norm2(O[j]))
SizeReduced(E, tol) == LET n == Rows(E)
                           O == Orth(E, n)
                       IN \A i \in 1..n : \A j \in 1..(i - 1) : NLe(NAbs(Mu(E, O, i, j)), NAdd(NDiv(1, 2), tol))
(* |pi_i(b_i)|^2 <= 4/3 |pi_i(b_i+1)|^2                                          *)
Exchange(E, i, tol) == LET O == Orth(E, i + 1)
                           q == NAdd(Norm2(O[i + 1]), NMul(NSq(Mu(E, O, i + 1, i)), Norm2(O[i])))
                       IN NLe(Norm2(O[i]), NMul(NAdd(NDiv(4, 3), tol), q))
Reduced(E, tol) == SizeReduced(E, tol) /\ \A i \in 1..(Rows(E) - 1) : Exchange(E, i, tol)
=================================================================================
