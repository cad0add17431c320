--------------------------------- MODULE MC_C04 ---------------------------------
(* Symmetries of a lattice with an integral metric G, over every 2D and 3D form  *)
(* with small entries: Aut(G) is a finite group of unimodular matrices, its      *)
(* proper part is a subgroup of index at most 2 (exactly 2 in 3D, where it       *)
(* contains -1), and elements have order 1, 2, 3, 4 or 6.                        *)
EXTENDS Lattices
CONSTANTS A2, A3, O3
VARIABLES g, q, n
Form3(a, b, c, d, e, f) == << <<a, d, e>>, <<d, b, f>>, <<e, f, c>> >>
Forms == { << <<a, b>>, <<b, c>> >> : a \in 1..A2, c \in 1..A2, b \in (-A2)..A2 }
         \cup { Form3(a, b, c, d, e, f) : a \in 1..A3, b \in 1..A3, c \in 1..A3, d \in (-O3)..O3, e \in (-O3)..O3, f \in (-O3)..O3 }
Init == g \in { G \in Forms : PosDef(G) } /\ q = Id(Len(g)) /\ n = 0
(* walk: a symmetry, then its repeated squares                                   *)
Next == /\ n < 2 /\ n' = n + 1 /\ UNCHANGED g
        /\ IF n = 0 THEN q' \in Aut(g) ELSE q' = MMul(q, q)
Grp == n = 0 => LET S == Aut(g) IN
          /\ IsGroup(S, Len(g))
          /\ \A s \in S : Det(s) \in {1, -1}
          /\ (Len(g) = 3 => MNeg(Id(3)) \in S /\ 2 * Cardinality({s \in S : Det(s) = 1}) = Cardinality(S))
          /\ (Len(g) = 2 => Cardinality({s \in S : Det(s) = 1}) \in {Cardinality(S), Cardinality(S) \div 2})
Preserves == MMul(Transp(q), MMul(g, q)) = g
RECURSIVE MPow(_, _)
MPow(A, k) == IF k = 0 THEN Id(Len(A)) ELSE MMul(A, MPow(A, k - 1))
Restriction == n = 1 => \E k \in {1, 2, 3, 4, 6} : MPow(q, k) = Id(Len(g))
=================================================================================
