--------------------------------- MODULE MC_C09 ---------------------------------
(* Index conversion for each centring, on integer lattices: walking between the  *)
(* two index systems any number of times never changes the vector in space, and  *)
(* conventional integer indices stay lattice vectors.                            *)
EXTENDS Bravais, Json
CONSTANTS B
VARIABLES c, v0, v, sys, n
(* conversion matrix conventional -> primitive of each centring (columns: the    *)
(* conventional vectors in some primitive basis)                                 *)
Prim(ce) == CASE ce = "P" -> Id(3)
              [] ce = "I" -> << <<H, "-1/2", "-1/2">>, <<H, H, "-1/2">>, <<H, H, H>> >>
              [] ce = "F" -> << <<H, 0, H>>, <<H, H, 0>>, <<0, H, H>> >>
              [] ce = "C" -> << <<H, "-1/2", 0>>, <<H, H, 0>>, <<0, 0, 1>> >>
Cmat(ce) == MInv(Prim(ce))
Idx == { <<x, y, z>> : x \in (-B)..B, y \in (-B)..B, z \in (-B)..B }
Str(w) == VecOf(Len(w), LAMBDA i : NStr(w[i]))
Init == c \in {"P", "I", "F", "C"} /\ v0 \in Idx /\ v = Str(v0) /\ sys = "conventional" /\ n = 0
Next == /\ n < 3 /\ n' = n + 1 /\ UNCHANGED <<c, v0>>
        /\ IF sys = "conventional" THEN sys' = "primitive" /\ v' = Str(MVec(Cmat(c), v))
           ELSE sys' = "conventional" /\ v' = Str(MVec(Prim(c), v))
InSpace == IF sys = "conventional" THEN VEq(v, v0) ELSE VEq(MVec(Prim(c), v), v0)
Integral == \A i \in 1..3 : NIsInt(v[i])
Points == NEq(Det(Cmat(c)), CASE c = "P" -> 1 [] c = "I" -> 2 [] c = "F" -> 4 [] c = "C" -> 2)
=================================================================================
