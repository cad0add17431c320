--------------------------------- MODULE MC_C13 ---------------------------------
(* A correspondence L acting on directions (by the inverse) and planes (by the   *)
(* transpose), as a walk: the pair (direction, plane) is carried through up to   *)
(* Depth correspondences.  Incidence is preserved at every step, and the walk    *)
(* agrees with one step by the product.                                          *)
EXTENDS LinAlg, Json
CONSTANTS B, Depth
VARIABLES n, prod, d0, p0, d, p, l
Ls == { << <<a, b>>, <<c, e>> >> : a \in (-B)..B, b \in (-B)..B, c \in (-B)..B, e \in (-B)..B }
Inv == TLCEval({ L \in Ls : Det(L) # 0 })
V == { <<x, y>> : x \in -1..1, y \in -1..1 } \ {<<0, 0>>}
Str(w) == VecOf(Len(w), LAMBDA i : NStr(w[i]))
Init == n = 0 /\ prod = Id(2) /\ l = Id(2) /\ d0 \in V /\ p0 \in V /\ d = Str(d0) /\ p = Str(p0)
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED <<d0, p0>>
        /\ \E L \in Inv : l' = L /\ prod' = MMul(prod, L) /\ d' = Str(MVec(MInv(L), d)) /\ p' = Str(MVec(Transp(L), p))
Incidence == NEq(Dot(d, p), Dot(d0, p0))
Product == VEq(MVec(prod, d), d0) /\ VEq(p, MVec(Transp(prod), p0))
Emit == n = 1 => PrintT("CASE " \o ToJson([l |-> l, d |-> d0, p |-> p0]))
=================================================================================
