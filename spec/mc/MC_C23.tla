--------------------------------- MODULE MC_C23 ---------------------------------
(* A twin system: the variants of a stretch under a group, and a client asking   *)
(* its questions in any order.  The answers depend on the variants only, not on  *)
(* the order of the questions (the tables are built on the first question and    *)
(* kept).  Checked on exact integer stretches: two variants related by a 180     *)
(* degree rotation always have middle eigenvalue 1; a second such rotation       *)
(* exists exactly when e, U e, U^2 e are dependent, and it is about Second.      *)
EXTENDS Twins, Groups, SequencesExt, Json
CONSTANTS D, O, B, Queries, Asked
VARIABLES u, g, built, log
Host == TLCEval(CubeRot)
Subs == TLCEval({ Host, Closure({Id(3), << <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>, << <<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>> >>}),
                  Closure({Id(3), << <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>> >>, << <<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>> >>}),
                  Closure({Id(3), << <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>> >>}),
                  Closure({Id(3), << <<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>> >>}) })
Pat == { U \in { << <<a, d, e>>, <<d, b, f>>, <<e, f, c>> >> : a \in D, b \in D, c \in D, d \in O, e \in O, f \in O } : PosDef(U) }
Axes == { <<x, y, z>> : x \in -B..B, y \in -B..B, z \in 0..B } \ { <<0, 0, 0>> }
Vars == Orbit(g, u)
Half2 == TwoFold(g)
Init == /\ u \in Pat /\ g \in Subs /\ built = FALSE /\ log = <<>>
(* a question builds the table if it is the first                                *)
Ask(q) == Len(log) < Asked /\ built' = TRUE /\ log' = Append(log, q) /\ UNCHANGED <<u, g>>
Next == \E q \in Queries : Ask(q)
Twinned(U, V) == U # V /\ NEq(Det(MSub(Sq2(V), Sq2(U))), 0) /\ Below(U, V, 1) <= 1
Table == { {a, b} : a \in Vars, b \in Vars }
Conv(U, V) == \E q \in Half2 : Act(q, U) = V
ConvIsTwin == log = <<>> => \A V \in Vars : V # u /\ Conv(u, V) => Twinned(u, V)
Relating(V) == { e \in Axes : MEq(Turned(e, u), V) }
SecondAxis == log = <<>> => \A q \in Half2 : LET e == AxisOf(q) V == Act(q, u) IN
                V # u => /\ MEq(Half(e), q)
                         /\ (NEq(Kry(e, u), 0) <=> MEq(Turned(Second(e, u), u), V))
                         /\ (~NEq(Kry(e, u), 0) => \A f \in Relating(V) : Parallel(e, f, 0))
                         /\ \A f \in Relating(V) : Parallel(f, e, 0) \/ Parallel(f, Second(e, u), 0)
Emit == Len(log) = Asked => PrintT("CASE " \o ToJson([g |-> SetToSeq(g), u |-> u, log |-> log]))
=================================================================================
