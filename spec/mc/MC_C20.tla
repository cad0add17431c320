--------------------------------- MODULE MC_C20 ---------------------------------
EXTENDS Merge, Json, TLC
(* candidates per task: <<class, distance>>, classes repeated (equivalents), ties *)
T1 == << << <<1, 4>>, <<2, 6>> >>, << <<1, 2>>, <<1, 2>>, <<2, 7>> >> >>
T2 == << << <<1, 5>>, <<2, 5>>, <<3, 5>> >>, << <<1, 5>>, <<2, 9>> >>, << <<1, 1>>, <<2, 5>> >> >>
T3 == << << <<1, 3>>, <<2, 8>> >>, << <<1, 6>> >>, << <<1, 3>>, <<1, 3>>, <<2, 4>> >>, << <<1, 1>>, <<2, 2>>, <<3, 3>> >> >>
T4 == << << <<1, 2>>, <<2, 3>> >> >>
T5 == << << <<1, 9>>, <<2, 10>> >>, << <<1, 8>>, <<2, 9>> >>, << <<1, 7>>, <<2, 8>> >>, << <<1, 6>>, <<2, 7>> >>, << <<1, 5>>, <<2, 6>> >> >>
TabsQ == {T1, T2, T3, T4}
TabsT == {T1, T2, T3, T4, T5}
Emit == Done => PrintT("CASE " \o ToJson([tab |-> tab, pool |-> pool, nsol |-> nsol, hist |-> hist]))
Spec == Init /\ [][Next]_vars
(* if a task that is polled again and again becomes ready in the end, the search ends *)
FairSpec == Spec /\ WF_vars(Ready)
=================================================================================
