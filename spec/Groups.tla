--------------------------------- MODULE Groups ---------------------------------
(* Finite groups of integer matrices, their subgroups, and their action on       *)
(* symmetric tensors: orbits, stabilisers, cosets (C10, C11, C12, C23).          *)
EXTENDS LinAlg
Perms3 == { p \in [1..3 -> 1..3] : \A i, j \in 1..3 : p[i] = p[j] => i = j }
(* signed permutation matrices: the full symmetry group of the cube              *)
CubeFull == { Mat(3, 3, LAMBDA i, j : IF p[i] = j THEN s[i] ELSE 0) : p \in Perms3, s \in [1..3 -> {1, -1}] }
CubeRot == { q \in CubeFull : Det(q) = 1 }
(* rotations of the hexagonal prism, in the basis (1,0,0), (1/2,s,0), (0,0,1)    *)
Hex6 == << <<0, -1, 0>>, <<1, 1, 0>>, <<0, 0, 1>> >>
Hex2 == << <<1, 1, 0>>, <<0, -1, 0>>, <<0, 0, -1>> >>
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup { MMul(a, b) : a \in S, b \in S } IN IF T = S THEN S ELSE Closure(T)
HexRot == Closure({Hex6, Hex2})
Subgroup(H, G) == H \subseteq G
(* action on a symmetric tensor                                                  *)
Act(q, U) == MMul(q, MMul(U, Transp(q)))
Orbit(G, U) == { Act(q, U) : q \in G }
Stab(G, U) == { q \in G : Act(q, U) = U }
Coset(G, U, V) == { q \in G : Act(q, U) = V }
(* 180 degree rotations: q # 1, q q = 1, proper                                  *)
TwoFold(G) == { q \in G : q # Id(3) /\ MMul(q, q) = Id(3) /\ Det(q) = 1 }
=================================================================================
