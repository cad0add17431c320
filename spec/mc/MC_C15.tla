--------------------------------- MODULE MC_C15 ---------------------------------
(* The distances on small integer lattices: the metric form agrees with the      *)
(* deformation form, they vanish exactly at isometries, and moving along the     *)
(* orbit of L under the symmetries of both lattices never changes them.          *)
EXTENDS Distance, Lattices, Json
CONSTANTS Bases, B
Bs == { << <<1, 0>>, <<0, 1>> >>, << <<2, 0>>, <<0, 1>> >>, << <<2, 1>>, <<0, 2>> >>, << <<1, 1>>, <<-1, 1>> >>, << <<3, 1>>, <<1, 2>> >> }
BsMore == Bs \cup { << <<3, 0>>, <<0, 3>> >>, << <<2, 1>>, <<1, -3>> >>, << <<1, 0>>, <<3, 4>> >> }
VARIABLES e1, e2, l0, l, n
Ls == { << <<a, b>>, <<c, d>> >> : a \in (-B)..B, b \in (-B)..B, c \in (-B)..B, d \in (-B)..B }
Init == e1 \in Bases /\ e2 \in Bases /\ l0 \in Ls /\ l = l0 /\ n = 0
Next == n < 1 /\ n' = n + 1 /\ UNCHANGED <<e1, e2, l0>>
        /\ \E m1 \in Aut(Gram(e1)), m2 \in Aut(Gram(e2)) : l' = MMul(m1, MMul(l, m2))
View == <<e1, e2, l0, l>>
Agree == NEq(Cauchy(l, e1, MInv(e2)), CauchyG(l, Gram(e1), MInv(Gram(e2))))
Invariant == NEq(Cauchy(l, e1, MInv(e2)), Cauchy(l0, e1, MInv(e2)))
Zero == (NEq(Cauchy(l, e1, MInv(e2)), 0) <=> MMul(Transp(l), MMul(Gram(e1), l)) = Gram(e2)) /\
        (NEq(Ericksen(l, e1, e2), 0) <=> MMul(Transp(l), MMul(Gram(e1), l)) = Gram(e2))
Positive == NLe(0, Cauchy(l, e1, MInv(e2)))
(* the Ericksen distance is invariant under symmetries of the first lattice; a   *)
(* symmetry of the second one conjugates M, keeping the distance if orthogonal   *)
Emit == n = 0 => PrintT("CASE " \o ToJson([e1 |-> e1, e2 |-> e2, l |-> l0]))
=================================================================================
