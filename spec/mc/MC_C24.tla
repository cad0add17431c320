--------------------------------- MODULE MC_C24 ---------------------------------
(* The twinning equation on exact stretches U and axes e: both closed forms are  *)
(* solutions, they differ, and every rank-one solution found among all normals   *)
(* of a box is one of the two.  A twin pair is an object with lazily computed    *)
(* answers; a client asks in any order.                                          *)
EXTENDS Twins, Json
CONSTANTS D, O, B, Queries, Asked
VARIABLES u, e, log
Pat == { U \in { << <<a, d, x>>, <<d, b, f>>, <<x, f, c>> >> : a \in D, b \in D, c \in D, d \in O, x \in O, f \in O } : PosDef(U) }
Axes == { <<x, y, z>> : x \in -B..B, y \in -B..B, z \in 0..B } \ { <<0, 0, 0>> }
Init == u \in Pat /\ e \in Axes /\ ~MEq(Turned(e, u), u) /\ log = <<>>
Next == Len(log) < Asked /\ \E q \in Queries : log' = Append(log, q) /\ UNCHANGED <<u, e>>
V == Turned(e, u)
Solved == log = <<>> => /\ SameStretch(MAdd(u, TypeI(e, u)), V)
                        /\ SameStretch(MAdd(u, TypeII(e, u)), V)
                        /\ ~MEq(TypeI(e, u), TypeII(e, u))
(* compound: the second axis gives the same two solutions, the other way round   *)
Swap == log = <<>> /\ NEq(Kry(e, u), 0) => /\ MEq(TypeI(Second(e, u), u), TypeII(e, u))
                                           /\ MEq(TypeII(Second(e, u), u), TypeI(e, u))
(* V^2 - U^2 = 2 sym(U a n) + |a|^2 n n vanishes on the plane of a solution: a   *)
(* normal n of a solution makes the form vanish on n's orthogonal complement     *)
Vanishes(n) == LET S == MSub(Sq2(V), Sq2(u))
                   p == IF NEq(n[1], 0) /\ NEq(n[2], 0) THEN <<1, 0, 0>> ELSE <<NNeg(n[2]), n[1], 0>>
                   q == Cross(n, p)
               IN NEq(Dot(p, MVec(S, p)), 0) /\ NEq(Dot(p, MVec(S, q)), 0) /\ NEq(Dot(q, MVec(S, q)), 0)
N2 == VSub(VScale(NDiv(1, Norm2(e)), e), VScale(NDiv(1, Norm2(MVec(u, e))), MVec(u, MVec(u, e))))
OnlyTwo == log = <<>> => Vanishes(e) /\ Vanishes(N2) /\ \A n \in Axes : Vanishes(n) => Parallel(n, e, 0) \/ Parallel(n, N2, 0)
Emit == Len(log) = Asked => PrintT("CASE " \o ToJson([u |-> u, e |-> e, log |-> log]))
=================================================================================
