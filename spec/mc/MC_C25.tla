--------------------------------- MODULE MC_C25 ---------------------------------
(* Mixing the two variants of a twin: on exact stretches u/s and axes, the form  *)
(* det(C_f - 1) is a quadratic in f, symmetric about 1/2, for both solutions of  *)
(* the twinning equation, so the candidate fractions are 1/2 +- sqrt(Root2).     *)
(* Each twin falls into one class; a client asks its questions in any order.     *)
EXTENDS Twins, Json
CONSTANTS D, O, B, Scales, Queries, Asked
VARIABLES u, e, s, log
Pat == { U \in { << <<a, d, x>>, <<d, b, f>>, <<x, f, c>> >> : a \in D, b \in D, c \in D, d \in O, x \in O, f \in O } : PosDef(U) }
Axes == { <<x, y, z>> : x \in -B..B, y \in -B..B, z \in 0..B } \ { <<0, 0, 0>> }
Init == u \in Pat /\ e \in Axes /\ s \in Scales /\ ~MEq(Turned(e, u), u) /\ log = <<>>
Next == Len(log) < Asked /\ \E q \in Queries : log' = Append(log, q) /\ UNCHANGED <<u, e, s>>
W == MScale(NDiv(10, s), u)
Sols == << TypeI(e, W), TypeII(e, W) >>
Fr == << NDiv(1, 4), 1, 2, NDiv(-1, 3), NDiv(2, 3) >>
Quadratic == log = <<>> => \A i \in 1..2 : \A h \in 1..Len(Fr) : LET f == Fr[h] IN
               /\ NEq(GF(W, Sols[i], f), NAdd(NMul(Alp(W, Sols[i]), NSq(NSub(f, NDiv(1, 2)))), Gam(W, Sols[i])))
               /\ NEq(GF(W, Sols[i], f), GF(W, Sols[i], NSub(1, f)))
(* where the candidate is a fraction and the mixture there stretches and shrinks,*)
(* its middle eigenvalue is 1                                                    *)
Class(A) == IF NEq(Alp(W, A), 0) THEN "flat"
            ELSE IF NLt(Root2(W, A), 0) THEN "none"
            ELSE IF NLe(NDiv(1, 4), Root2(W, A)) THEN "outside"
            ELSE LET f == NAdd(NDiv(1, 2), NSqrt(Root2(W, A)))
                     C == Mix(W, A, f)
                 IN IF Saddle(C, NTen(6)) THEN "compatible" ELSE "wrong eigenvalue"
Mid == log = <<>> => \A i \in 1..2 : Class(Sols[i]) = "compatible" => MidOne(Mix(W, Sols[i], NAdd(NDiv(1, 2), NSqrt(Root2(W, Sols[i])))), NTen(12))
Emit == Len(log) = Asked => PrintT("CASE " \o ToJson([u |-> u, e |-> e, s |-> s, log |-> log, cls |-> <<Class(Sols[1]), Class(Sols[2])>>]))
=================================================================================
