-------------------------------- MODULE LinAlg ---------------------------------
(* Vectors (sequences of numbers) and matrices (sequences of rows) over Num.     *)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC

Rows(A) == Len(A)
Cols(A) == Len(A[1])
IsVec(v, n) == DOMAIN v = 1..n /\ \A i \in 1..n : NIs(v[i])
(* a well-formed r x c matrix of numbers                                         *)
IsMat(A, r, c) == DOMAIN A = 1..r /\ \A i \in 1..r : IsVec(A[i], c)
IsSquare(A) == Len(A) > 0 /\ IsMat(A, Len(A), Len(A))

RECURSIVE SumFrom(_, _, _)
SumFrom(f(_), i, n) == IF i > n THEN 0 ELSE NAdd(f(i), SumFrom(f, i + 1, n))
SumN(f(_), n) == SumFrom(f, 1, n)

Dot(u, v) ==
  CASE Len(u) = 1 -> NMul(u[1], v[1])
    [] Len(u) = 2 -> NAdd(NMul(u[1], v[1]), NMul(u[2], v[2]))
    [] Len(u) = 3 -> NAdd(NAdd(NMul(u[1], v[1]), NMul(u[2], v[2])), NMul(u[3], v[3]))
    [] OTHER      -> SumN(LAMBDA i : NMul(u[i], v[i]), Len(u))

Mat(r, c, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])
VecOf(n, f(_)) == TLCEval([i \in 1..n |-> f(i)])
MTrunc(A, k) == Mat(Len(A), Len(A[1]), LAMBDA i, j : NTrunc(A[i][j], k))   \* entries rounded down to 2^-k
Id(n)      == Mat(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Transp(A)  == Mat(Cols(A), Rows(A), LAMBDA i, j : A[j][i])
Col(A, j)  == VecOf(Rows(A), LAMBDA i : A[i][j])
MulT(A, Bt) == [i \in 1..Rows(A) |-> [j \in 1..Rows(Bt) |-> Dot(A[i], Bt[j])]]   \* A . Bt^T
MMul(A, B) == MulT(A, Transp(B))
MVec(A, v) == [i \in 1..Rows(A) |-> Dot(A[i], v)]
MAdd(A, B) == Mat(Rows(A), Cols(A), LAMBDA i, j : NAdd(A[i][j], B[i][j]))
MSub(A, B) == Mat(Rows(A), Cols(A), LAMBDA i, j : NSub(A[i][j], B[i][j]))
MScale(s, A) == Mat(Rows(A), Cols(A), LAMBDA i, j : NMul(s, A[i][j]))
MNeg(A)    == MScale(-1, A)
VAdd(u, v) == [i \in 1..Len(u) |-> NAdd(u[i], v[i])]
VSub(u, v) == [i \in 1..Len(u) |-> NSub(u[i], v[i])]
VScale(s, v) == [i \in 1..Len(v) |-> NMul(s, v[i])]
Outer(u, v) == Mat(Len(u), Len(v), LAMBDA i, j : NMul(u[i], v[j]))
Tr(A)      == SumN(LAMBDA i : A[i][i], Rows(A))
Gram(E)    == LET T == Transp(E) IN MulT(T, T)                       \* E^T E
Norm2(v)   == Dot(v, v)
Cross(u, v) == << NSub(NMul(u[2], v[3]), NMul(u[3], v[2])),
                  NSub(NMul(u[3], v[1]), NMul(u[1], v[3])),
                  NSub(NMul(u[1], v[2]), NMul(u[2], v[1])) >>

Minor(A, r, c) == Mat(Rows(A) - 1, Cols(A) - 1,
                      LAMBDA i, j : A[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1])
RECURSIVE Det(_)
Det(A) ==
  CASE Rows(A) = 1 -> A[1][1]
    [] Rows(A) = 2 -> NSub(NMul(A[1][1], A[2][2]), NMul(A[1][2], A[2][1]))
    [] OTHER -> SumN(LAMBDA j : IF NEq(A[1][j], 0) THEN 0
                                ELSE NMul(IF j % 2 = 1 THEN A[1][j] ELSE NNeg(A[1][j]), Det(Minor(A, 1, j))), Rows(A))
Cof(A) == IF Rows(A) = 1 THEN << <<1>> >>
          ELSE Mat(Rows(A), Rows(A), LAMBDA i, j : LET m == Det(Minor(A, i, j))
                                                   IN IF (i + j) % 2 = 0 THEN m ELSE NNeg(m))
(* inverse of a nonsingular matrix                                               *)
MInv(A) == LET K == Cof(A)
               d == Dot(A[1], K[1])
           IN Mat(Rows(A), Rows(A), LAMBDA i, j : NDiv(K[j][i], d))
Singular(A) == NEq(Det(A), 0)

(* componentwise comparisons                                                     *)
VAll(v, P(_)) == \A i \in DOMAIN v : P(v[i])
MAll(A, P(_)) == \A i \in DOMAIN A : \A j \in DOMAIN A[i] : P(A[i][j])
VEq(u, v)  == Len(u) = Len(v) /\ \A i \in 1..Len(u) : NEq(u[i], v[i])
MEq(A, B)  == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VEq(A[i], B[i])
VClose(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : NClose(u[i], v[i], tol)
MClose(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VClose(A[i], B[i], tol)
RECURSIVE VMaxFrom(_, _)
VMaxFrom(v, i) == IF i = Len(v) THEN NAbs(v[i]) ELSE NMax(NAbs(v[i]), VMaxFrom(v, i + 1))
VMaxAbs(v) == VMaxFrom(v, 1)
MaxAbs(A) == VMaxAbs([i \in 1..Rows(A) |-> VMaxAbs(A[i])])
MIsInt(A)  == MAll(A, NIsInt)
MRint(A)   == Mat(Rows(A), Cols(A), LAMBDA i, j : NRint(A[i][j]))
MNearInt(A, tol) == MAll(A, LAMBDA x : NLe(NDistInt(x), tol))
Unimodular(A) == MIsInt(A) /\ NEq(NAbs(Det(A)), 1)
Orthogonal(Q, tol) == MClose(Gram(Q), Id(Rows(Q)), tol)
(* a proper rotation up to tol                                                   *)
Rotation(Q, tol) == Orthogonal(Q, tol) /\ NLt(0, Det(Q))
Symmetric(A) == MEq(A, Transp(A))

(* number of eigenvalues of the symmetric matrix S below / equal / above zero is *)
(* decided by exact symmetric elimination (Sylvester's law of inertia)           *)
RECURSIVE NegCount(_)
NegCount(S) ==           \* number of negative eigenvalues of the exactly symmetric S
  LET n == Rows(S)
      piv == {i \in 1..n : ~NEq(S[i][i], 0)}
  IN IF \A i, j \in 1..n : NEq(S[i][j], 0) THEN 0
     ELSE IF piv # {} THEN
       LET p == CHOOSE i \in piv : TRUE
           d == S[p][p]
           ix(i) == IF i < p THEN i ELSE i + 1
           R == Mat(n - 1, n - 1, LAMBDA i, j :
                    NSub(S[ix(i)][ix(j)], NDiv(NMul(S[ix(i)][p], S[p][ix(j)]), d)))
       IN (IF NSgn(d) < 0 THEN 1 ELSE 0) + (IF n = 1 THEN 0 ELSE NegCount(R))
     ELSE \* zero diagonal: a hyperbolic plane has one negative eigenvalue
       LET pr == CHOOSE q \in (1..n) \X (1..n) : q[1] < q[2] /\ ~NEq(S[q[1]][q[2]], 0)
           \* replace basis vector p by p+q to get a nonzero diagonal entry
           T == Mat(n, n, LAMBDA i, j : IF i = j \/ (i = pr[2] /\ j = pr[1]) THEN 1 ELSE 0)
       IN NegCount(MMul(Transp(T), MMul(S, T)))
(* number of eigenvalues of S below t (S exactly symmetric)                      *)
EigBelow(S, t) == NegCount(MSub(S, MScale(t, Id(Rows(S)))))
Sym(A) == MScale(NDiv(1, 2), MAdd(A, Transp(A)))
PosDef(S) == \A k \in 1..Rows(S) : NLt(0, Det(Mat(k, k, LAMBDA i, j : S[i][j])))
=================================================================================
