--------------------------------- MODULE Rank1 -----------------------------------
(* Rank-one connections of general deformations (C26): A and B are compatible    *)
(* when some rotation Q and vectors b, m give Q A = (1 + b m^T) B, that is when  *)
(* the middle eigenvalue of B^-T A^T A B^-1 is 1.                                *)
EXTENDS LinAlg
BelowR(A, B, t) == NegCount(MSub(Gram(A), MScale(t, Gram(B))))
Compatible(A, B) == BelowR(A, B, 1) <= 1 /\ NegCount(MSub(Gram(B), Gram(A))) <= 1
Within1(A, B, t) == BelowR(A, B, NAdd(1, t)) >= 2 /\ BelowR(A, B, NSub(1, t)) <= 1
Step1(b, m) == MAdd(Id(3), Outer(b, m))
=================================================================================
