--------------------------------- MODULE MC_C18 ---------------------------------
(* Fields along the orbit of a correspondence: moving by symmetries of either    *)
(* lattice keeps the distance and the principal stretches, symmetries of the     *)
(* product keep the stretch itself, an orientation reversing L can be turned     *)
(* exactly when a symmetry reverses orientation, and L = H l is determined.      *)
EXTENDS Solution, Lattices, Json
CONSTANTS Lats, B
VARIABLES a, m, l0, l, n
LatsQ == { <<1, <<1>>, 1, 1, 0>>, <<2, <<1, 2>>, 1, 2, 0>>, <<1, <<2>>, 2, 2, 0>>, <<2, <<3, 2>>, 3, 2, 0>> }
LatsT == LatsQ \cup { <<1, <<3>>, 3, 3, 0>>, <<2, <<2, 3>>, 2, 3, 0>>, <<2, <<3, 1>>, 3, 1, 0>> }
Base(x) == << <<x[3], x[5]>>, <<0, x[4]>> >>
E1 == Base(a)
E2 == Base(m)
Ls == { L \in { << <<p, q>>, <<r, s>> >> : p \in (-B)..B, q \in (-B)..B, r \in (-B)..B, s \in (-B)..B } : ~NEq(Det(L), 0) }
Init == a \in Lats /\ m \in Lats /\ l0 \in Ls /\ l = l0 /\ n = 0
Next == n = 0 /\ n' = 1 /\ UNCHANGED <<a, m, l0>>
        /\ \E m1 \in Aut(Gram(E1)), m2 \in Aut(Gram(E2)) : l' = MMul(m1, MMul(l, m2))
SameDist == NEq(Cauchy(l, E1, MInv(E2)), Cauchy(l0, E1, MInv(E2))) 
SameLams == VEq(Charpoly(RightCG(l, E1, E2)), Charpoly(RightCG(l0, E1, E2)))
Metric == NEq(NMul(Det(RightCG(l, E1, E2)), NSq(NMul(Det(E1), Det(l)))), NSq(Det(E2)))
Orients == n = 0 => (CanOrient(l0, Aut(Gram(E1)), Aut(Gram(E2))) <=> \E m1 \in Aut(Gram(E1)), m2 \in Aut(Gram(E2)) : NLt(0, Det(MMul(m1, MMul(l0, m2)))))
HasForm == \E H \in HNFsOfDet(NAbs(Det(l)), 2) : Unimodular(MMul(MInv(H), l)) /\ \A K \in HNFsOfDet(NAbs(Det(l)), 2) : Unimodular(MMul(MInv(K), l)) => K = H
Emit == n = 0 /\ l0 = << <<1, 0>>, <<0, 1>> >> => \A k \in 1..3 : PrintT("CASE " \o ToJson([a |-> <<a[1], a[2]>>, m |-> <<m[1], m[2]>>, dim |-> 2, nsol |-> k]))
=================================================================================
