--------------------------------- MODULE MC_C30 ---------------------------------
(* Bases with known singular values (turned by 3-4-5 rotations): a walk through   *)
(* the correspondences.  The minimum is a lower bound everywhere, is attained, and *)
(* bounds the length of every correspondence by its distance.                      *)
EXTENDS Quartic, Json
CONSTANTS Sizes, B
VARIABLES a, m, ra, rm, L
vars == <<a, m, ra, rm, L>>
Rot(t) == CASE t = 0 -> << <<1, 0>>, <<0, 1>> >> [] t = 1 -> << <<Rat(3, 5), Rat(-4, 5)>>, <<Rat(4, 5), Rat(3, 5)>> >>
            [] OTHER -> << <<Rat(5, 13), Rat(12, 13)>>, <<Rat(-12, 13), Rat(5, 13)>> >>
D2(x) == << <<x[1], 0>>, <<0, x[2]>> >>
(* A = (rotation) diag(a) (rotation): singular values a[1] <= a[2]                 *)
A == MMul(Rot(ra), MMul(D2(a), Rot(2)))
M == MMul(Rot(rm), MMul(D2(m), Rot(1)))
Pairs == { x \in Sizes \X Sizes : x[1] <= x[2] }
(* eigenvalues of (A^T A)^-1 and M^T M, largest first                              *)
P == << NDiv(1, a[1] * a[1]), NDiv(1, a[2] * a[2]) >>
Q == << m[2] * m[2], m[1] * m[1] >>
Alpha == MinFrom(P, Q)
Init == a \in Pairs /\ m \in Pairs /\ ra \in {0, 1} /\ rm \in {0, 2} /\ L = << <<0, 0>>, <<0, 0>> >>
Bump(x) == IF x < B THEN {x + 1} ELSE {}
Next == UNCHANGED <<a, m, ra, rm>> /\ \E i, j \in 1..2 : \E d \in {-1, 1} : L[i][j] + d \in (-B)..B /\ L' = [L EXCEPT ![i][j] = @ + d]
Lower == NLe(NMul(Alpha, NSq(Frob2(L))), Form(L, A, MInv(M)))
(* the minimiser: A^-1 . F . M with F = (left vectors of A) diag(s) (right of M)   *)
Best == LET s == << NDiv(m[2], a[1]), NDiv(m[1], a[2]) >>                 \* s_k ~ sqrt(p_k q_k)
            F == MMul(Rot(ra), MMul(<< <<s[1], 0>>, <<0, s[2]>> >>, MMul(<< <<0, 1>>, <<1, 0>> >>, Transp(Rot(rm)))))
        IN MMul(MInv(A), MMul(F, M))
Attained == NEq(NMul(Alpha, NSq(Frob2(Best))), Form(Best, A, MInv(M)))
Eigen == LET x == Minimum(A, M) IN NCloseRel(NDiv(x, Alpha), 1, NTen(6))
EigenAtStart == L = << <<0, 0>>, <<0, 0>> >> => Eigen
Cd(l) == LET F == MMul(A, MMul(l, MInv(M))) X == MSub(MulT(F, F), Id(2)) IN Norm2(X[1] \o X[2])
Bounded == Within(Form(L, A, MInv(M)), 2, Cd(L))
Emit == L = << <<0, 0>>, <<0, 0>> >> => PrintT("CASE " \o ToJson([a |-> a, m |-> m, ra |-> ra, rm |-> rm]))
=================================================================================
