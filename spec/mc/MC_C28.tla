--------------------------------- MODULE MC_C28 ---------------------------------
(* A unit cell as an object: its origin moves, its corners and edges are asked   *)
(* for, cells are copied, in any order.  Checked: the cell is a hypercube graph  *)
(* (n 2^(n-1) edges, n at every corner, opposite corners share the centre), it   *)
(* moves rigidly with the origin.                                                *)
EXTENDS Draw, Json
CONSTANTS Dims, Depth
VARIABLES n, o, log
Basis == IF n = 2 THEN << <<2, 0>>, <<1, 3>> >> ELSE << <<2, 0, 0>>, <<1, 3, 0>>, <<-1, 1, 4>> >>
Zero == [i \in 1..n |-> 0]
Moves == { Zero, [i \in 1..n |-> i], [i \in 1..n |-> 1 - i] }
Ops == { "primitive", "conventional", "primitive bonds", "conventional bonds", "copy" }
Init == n \in Dims /\ o = Zero /\ log = <<>>
Move == \E v \in Moves : v # o /\ o' = v /\ log' = Append(log, [op |-> "move", to |-> v])
Ask == \E q \in Ops : log' = Append(log, [op |-> q, to |-> o]) /\ o' = o
Next == Len(log) < Depth /\ (Move \/ Ask) /\ UNCHANGED n
Shape == /\ Cardinality(CellEdges(n)) = n * (IF n = 2 THEN 2 ELSE 4)
         /\ \A c \in Picks(n) : Cardinality({ x \in CellEdges(n) : c \in x }) = n
         /\ Cardinality({ Corner(o, Basis, c) : c \in Picks(n) }) = (IF n = 2 THEN 4 ELSE 8)
         /\ \A c \in Picks(n) : VEq(VAdd(Corner(o, Basis, c), Corner(o, Basis, [i \in 1..n |-> 1 - c[i]])), Corner(VScale(2, o), Basis, [i \in 1..n |-> 1]))
Rigid == \A c \in Picks(n) : VEq(Corner(o, Basis, c), VAdd(o, Corner(Zero, Basis, c)))
Emit == Len(log) = Depth => PrintT("CASE " \o ToJson([n |-> n, log |-> log]))
=================================================================================
