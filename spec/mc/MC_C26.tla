--------------------------------- MODULE MC_C26 ---------------------------------
(* From a deformation B a process A = B, then rotations and rank-one steps in    *)
(* any order.  With at most one rank-one step A stays compatible with B, however *)
(* it is rotated before or after (a rotation before the step is a step seen from *)
(* a turned frame); with more it need not.  Every state is emitted with the      *)
(* verdict of the specification.                                                 *)
EXTENDS Rank1, Groups, Json
CONSTANTS Starts, E, Depth
VARIABLES b0, a, n, d
Host == TLCEval({ q \in CubeRot : q[1][1] = 0 })
BB == << Id(3), << <<2, 1, 0>>, <<0, 1, 0>>, <<0, 0, 3>> >>, << <<2, 0, 1>>, <<1, 3, 0>>, <<0, 1, 2>> >>, << <<-1, 0, 0>>, <<0, 2, 1>>, <<0, 0, 1>> >> >>
Vec == { v \in { <<x, y, z>> : x \in E, y \in E, z \in E } : v # <<0, 0, 0>> }
Init == b0 \in Starts /\ a = BB[b0] /\ n = 0 /\ d = 0
Turn == \E q \in Host : a' = MMul(q, a) /\ n' = n
Shear == \E b \in Vec, m \in Vec : NLt(0, NAdd(1, Dot(b, m))) /\ a' = MMul(Step1(b, m), a) /\ n' = n + 1
Next == d < Depth /\ d' = d + 1 /\ UNCHANGED b0 /\ (Turn \/ Shear)
One == n <= 1 => Compatible(a, BB[b0])
Twosided == Compatible(a, BB[b0]) = Compatible(BB[b0], a)
Emit == d > 0 => PrintT("CASE " \o ToJson([a |-> a, b |-> BB[b0], ok |-> Compatible(a, BB[b0])]))
=================================================================================
