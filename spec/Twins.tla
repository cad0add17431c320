--------------------------------- MODULE Twins -----------------------------------
(* Twins (C23, C24, C25): a rotation Q, and vectors a, n with Q V - U = a n^T,   *)
(* for two stretches U, V.  Everything is decided on exact numbers, through the  *)
(* inertia of V^2 - t U^2: C = U^-1 V^2 U^-1 has as many eigenvalues below t as  *)
(* that form has negative directions.                                            *)
EXTENDS LinAlg, Sequences
Sq2(U) == MMul(U, U)
(* number of eigenvalues of C below t                                            *)
Below(U, V, t) == NegCount(MSub(Sq2(V), MScale(t, Sq2(U))))
(* middle eigenvalue strictly between s and t, for s < t                         *)
MidIn(U, V, s, t) == Below(U, V, t) >= 2 /\ Below(U, V, s) <= 1
MaxDiff(U, V) == MaxAbs(MSub(U, V))
(* the 180 degree rotation about e (e # 0, any length), and what it makes of U   *)
Half(e) == MSub(MScale(NDiv(2, Norm2(e)), Outer(e, e)), Id(3))
Turned(e, U) == LET R == Half(e) IN MMul(R, MMul(U, R))
Relates(e, U, V, tol) == MClose(Turned(e, U), V, tol)
Parallel(e, f, tol) == NLe(Norm2(Cross(e, f)), NMul(NSq(tol), NMul(Norm2(e), Norm2(f))))
(* e, U e, U^2 e are dependent exactly when a second 180 degree rotation relates *)
(* the same two variants: about e x (e x U e)                                    *)
Kry(e, U) == LET u == MVec(U, e) IN Det(<<e, u, MVec(U, u)>>)
Second(e, U) == Cross(e, Cross(e, MVec(U, e)))
Dev(U) == MSub(U, MScale(NDiv(Tr(U), 3), Id(3)))
(* the same, normalised: |Kry|^2 against (|e| dev)^6                             *)
KryBelow(e, U, tol) == LET w == MaxAbs(Dev(U)) w3 == NMul(w, NMul(w, w)) n == Norm2(e)
                       IN NLe(NSq(Kry(e, U)), NMul(NSq(NMul(tol, w3)), NMul(n, NMul(n, n))))
(* axis of a 180 degree rotation: the longest column of Q + 1                    *)
AxisOf(Q) == LET P == MAdd(Q, Id(3))
                 n(i) == Norm2(Col(P, i))
                 i == IF NLe(n(2), n(1)) /\ NLe(n(3), n(1)) THEN 1 ELSE IF NLe(n(3), n(2)) THEN 2 ELSE 3
             IN Col(P, i)
IsHalf(Q) == NClose(Tr(Q), -1, NTen(8)) /\ MClose(MMul(Q, Q), Id(3), NTen(8))
(* the two solutions for V = Turned(e, U), as the rank-one matrices a n^T        *)
TypeI(e, U) == LET y == MVec(MInv(U), e)
               IN MScale(2, Outer(VSub(VScale(NDiv(1, Norm2(y)), y), VScale(NDiv(1, Norm2(e)), MVec(U, e))), e))
TypeII(e, U) == LET y == MVec(U, e)
                IN MScale(2, Outer(y, VSub(VScale(NDiv(1, Norm2(e)), e), VScale(NDiv(1, Norm2(y)), MVec(U, y)))))
(* F is a rotation times V                                                       *)
SameStretch(F, V) == MEq(Gram(F), Sq2(V)) /\ NLt(0, Det(F))
(* cofactor parameters, squared                                                  *)
XI2(e, U) == NDiv(Norm2(MVec(MInv(U), e)), Norm2(e))
XII2(e, U) == NDiv(Norm2(MVec(U, e)), Norm2(e))
(* averages of a twin with volume fraction f: F = U + f a n^T, and G the form    *)
(* whose zeros are the candidate fractions                                       *)
Mix(U, A, f) == Gram(MAdd(U, MScale(f, A)))
GF(U, A, f) == Det(MSub(Mix(U, A, f), Id(3)))
Gam(U, A) == GF(U, A, NDiv(1, 2))
Alp(U, A) == NMul(4, NSub(GF(U, A, 0), Gam(U, A)))
(* squared distance of the candidate fractions from 1/2                          *)
Root2(U, A) == NNeg(NDiv(Gam(U, A), Alp(U, A)))
(* C strictly stretches one way and shrinks another, by at least d, and its      *)
(* middle eigenvalue is within t of 1                                            *)
MidOne(C, t) == EigBelow(C, NAdd(1, t)) >= 2 /\ EigBelow(C, NSub(1, t)) <= 1
Saddle(C, d) == EigBelow(C, NSub(1, d)) = 1 /\ EigBelow(C, NAdd(1, d)) = 2
=================================================================================
