--------------------------------- MODULE MC_C05 ---------------------------------
(* Membership in the symmetry group of a lattice over every basis with entries   *)
(* in -B..B and every small integer matrix: InLatticeGroup (an integer matrix    *)
(* whose action is orthogonal) coincides with preserving the metric, and with    *)
(* InPointGroup of the corresponding orthogonal matrix.  Pairs are emitted.      *)
EXTENDS Lattices, Json
CONSTANTS B, M
VARIABLES e, m
Bases == { A \in [1..2 -> [1..2 -> (-B)..B]] : Det(A) # 0 }
Mx(A) == << <<A[1][1], A[1][2]>>, <<A[2][1], A[2][2]>> >>
Init == e \in {Mx(A) : A \in Bases} /\ m = <<>>
Next == m = <<>> /\ m' \in {Mx(A) : A \in [1..2 -> [1..2 -> (-M)..M]]} /\ UNCHANGED e
Act == MMul(e, MMul(m, MInv(e)))
Metric == m # <<>> => (InLatticeGroup(e, m) = "yes" <=> MEq(MMul(Transp(m), MMul(Gram(e), m)), Gram(e)))
NotClose == m # <<>> => InLatticeGroup(e, m) \in {"yes", "no"}
Both == m # <<>> /\ ~Singular(m) => (InLatticeGroup(e, m) = "yes" <=> InPointGroup(e, Act) = "yes")
InAut == m # <<>> => (InLatticeGroup(e, m) = "yes" <=> m \in Aut(Gram(e)))
Emit == m # <<>> => PrintT("CASE " \o ToJson([e |-> e, m |-> m]))
=================================================================================
