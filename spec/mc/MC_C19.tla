--------------------------------- MODULE MC_C19 ---------------------------------
(* Reducing in pieces: two workers own a part of the list each, take their forms *)
(* in any order, keep one when no kept form is related, and the master reduces   *)
(* what they kept, again in any order.                                           *)
EXTENDS HNFOrbits, Json
CONSTANTS Dets, Gs
VARIABLES N, g, todo, kept, phase, part
Sq4 == << <<0, -1>>, <<1, 0>> >>
Hx6 == << <<0, -1>>, <<1, 1>> >>
RECURSIVE Gen(_)
Gen(S) == LET T == S \cup { MMul(a, b) : a \in S, b \in S } IN IF T = S THEN S ELSE Gen(T)
Grp(x) == CASE x = "trivial" -> { Id(2) }
            [] x = "inversion" -> Gen({ MNeg(Id(2)) })
            [] x = "square" -> Gen({ Sq4 })
            [] x = "hexagonal" -> Gen({ Hx6 })
            [] OTHER -> Gen({ Sq4, << <<1, 0>>, <<0, -1>> >> })
All == HNFsOfDet(N, 2)
Init == /\ N \in Dets /\ g \in Gs
        /\ \E P \in SUBSET All : todo = [w \in {"w1", "w2"} |-> IF w = "w1" THEN P ELSE All \ P] /\ part = P
        /\ kept = [w \in {"w1", "w2", "master"} |-> {}] /\ phase = "workers"
Take(K, h) == IF \E r \in K : Related(h, r, Grp(g)) THEN K ELSE K \cup {h}
Worker(w) == /\ phase = "workers"
             /\ \E h \in todo[w] : /\ todo' = [todo EXCEPT ![w] = @ \ {h}]
                                   /\ kept' = [kept EXCEPT ![w] = Take(@, h)]
             /\ UNCHANGED <<N, g, phase, part>>
Gather == /\ phase = "workers" /\ todo["w1"] = {} /\ todo["w2"] = {}
          /\ phase' = "merge" /\ todo' = [todo EXCEPT !["w1"] = kept["w1"] \cup kept["w2"]]
          /\ UNCHANGED <<N, g, kept, part>>
Merge == /\ phase = "merge"
         /\ \E h \in todo["w1"] : /\ todo' = [todo EXCEPT !["w1"] = @ \ {h}]
                                  /\ kept' = [kept EXCEPT !["master"] = Take(@, h)]
         /\ UNCHANGED <<N, g, phase, part>>
Next == Worker("w1") \/ Worker("w2") \/ Gather \/ Merge
Right == (phase = "merge" /\ todo["w1"] = {}) => Reduces(kept["master"], All, Grp(g))
Pieces == (phase = "merge") => Reduces(kept["w1"], part, Grp(g)) /\ Reduces(kept["w2"], All \ part, Grp(g))
Emit == (phase = "workers" /\ todo["w1"] = part /\ todo["w2"] = All \ part) =>
        PrintT("CASE " \o ToJson([a |-> part, b |-> All \ part, lg |-> Grp(g)]))
=================================================================================
