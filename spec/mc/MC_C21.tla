--------------------------------- MODULE MC_C21 ---------------------------------
(* The optimisation on 2D integer lattices: steepest descent to a local minimum, *)
(* then a look at everything within three shears of it; a descent from there     *)
(* that ends lower restarts the search.  It ends, and where it ends nothing      *)
(* within three shears is closer.                                                *)
EXTENDS Shears, Json
CONSTANTS Bases, Starts
VARIABLES e1, e2, start, cur, phase
BsQ == { << <<1, 0>>, <<0, 1>> >>, << <<2, 0>>, <<0, 1>> >>, << <<2, 1>>, <<0, 2>> >>, << <<3, 1>>, <<1, 2>> >>, << <<1, 3>>, <<0, 2>> >> }
BsS == { << <<1, 0>>, <<0, 1>> >>, << <<2, 1>>, <<0, 2>> >>, << <<3, 1>>, <<1, 2>> >> }
BsT == BsQ \cup { << <<3, 0>>, <<0, 2>> >>, << <<1, -2>>, <<2, 1>> >>, << <<4, 1>>, <<0, 1>> >>, << <<5, 2>>, <<1, 3>> >> }
StQ == { Id(2), << <<1, 2>>, <<0, 1>> >>, << <<1, 0>>, <<-2, 1>> >>, << <<2, 3>>, <<1, 2>> >>, << <<1, 4>>, <<0, 1>> >> }
T == Transvections(2)
D(L) == CauchyG(L, Gram(e1), MInv(Gram(e2)))
Nb(L) == { MMul(L, t) : t \in T }
Lower(L) == { x \in Nb(L) : NLt(D(x), D(L)) }
Steepest(L) == { x \in Lower(L) : \A y \in Lower(L) : NLe(D(x), D(y)) }
RECURSIVE Bottom(_)
Bottom(L) == IF Lower(L) = {} THEN L ELSE Bottom(CHOOSE x \in Steepest(L) : TRUE)
Init == e1 \in Bases /\ e2 \in Bases /\ start \in Starts /\ cur = start /\ phase = "descend"
Descend == /\ phase = "descend"
           /\ IF Lower(cur) = {} THEN phase' = "explore" /\ cur' = cur ELSE cur' \in Steepest(cur) /\ phase' = phase
           /\ UNCHANGED <<e1, e2, start>>
Explore == /\ phase = "explore"
           /\ LET R == { x \in BallAround({cur}, T, 3) : NLt(D(Bottom(x)), D(cur)) }
              IN IF R = {} THEN phase' = "done" /\ cur' = cur
                 ELSE \E x \in R : cur' = Bottom(x) /\ phase' = "descend"
           /\ UNCHANGED <<e1, e2, start>>
Next == Descend \/ Explore
Unimod == NEq(Det(cur), 1)
BestNear == phase = "done" => \A x \in BallAround({cur}, T, 3) : NLe(D(cur), D(x))
(* in two dimensions the ball reaches the global minimum over SL(2, Z) for these  *)
Falls == [][NLt(D(cur'), D(cur)) \/ cur' = cur]_<<cur, phase>>
Ends == <>(phase = "done")
Spec == Init /\ [][Next]_<<e1, e2, start, cur, phase>> /\ WF_<<e1, e2, start, cur, phase>>(Next)
Emit == (phase = "descend" /\ cur = start) => PrintT("CASE " \o ToJson([e1 |-> MMul(e1, start), e2 |-> e2]))
=================================================================================
