--------------------------------- MODULE MC_C03 ---------------------------------
(* Equality of lattices over every basis with entries in -B..B: the decision by  *)
(* an integer change of basis of determinant +-1 coincides with equality of the  *)
(* point sets (a lattice of determinant d is periodic with period d), hence is an*)
(* equivalence relation.  Every pair is emitted for replay.                      *)
EXTENDS Lattices, Json
CONSTANTS B, EmitPairs
VARIABLES a, b
Bases == { A \in [1..2 -> [1..2 -> (-B)..B]] : Det(A) # 0 }
Mx(A) == << <<A[1][1], A[1][2]>>, <<A[2][1], A[2][2]>> >>
Init == a \in {Mx(A) : A \in Bases} /\ b = <<>>
Next == b = <<>> /\ b' \in {Mx(A) : A \in Bases} /\ UNCHANGED a
Same(x, y) == SameSet(x, y) = "yes"
In(p, E) == MIsInt(<<MVec(MInv(E), p)>>)
Period == 2 * B * B
Window == (0..(Period - 1)) \X (0..(Period - 1))
PointSets == b # <<>> => (Same(a, b) <=> \A p \in Window : In(p, a) <=> In(p, b))
Reflexive == Same(a, a)
Symmetric2 == b # <<>> => (Same(a, b) <=> Same(b, a))
Transitive == (b # <<>> /\ Same(a, b)) => \A c \in {Mx(A) : A \in Bases} : Same(b, c) <=> Same(a, c)
Emit == (EmitPairs /\ b # <<>>) => PrintT("CASE " \o ToJson([a |-> a, b |-> b]))
=================================================================================
