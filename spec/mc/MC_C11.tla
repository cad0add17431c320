--------------------------------- MODULE MC_C11 ---------------------------------
(* The orbit of a stretch 1 + eps u under every subgroup of the cubic and the    *)
(* hexagonal rotation group: enumerating the group in any order meets every      *)
(* variant, the elements meeting a variant form a coset of the stabiliser, all   *)
(* cosets have the same size and the orbit is as large as their number.          *)
EXTENDS Groups, SequencesExt, Json
CONSTANTS D, O
VARIABLES h, u, seen, todo
Host == TLCEval(CubeRot)
Pat == { << <<a, d, e>>, <<d, b, f>>, <<e, f, c>> >> : a \in D, b \in D, c \in D, d \in O, e \in O, f \in O }
(* subgroups generated by at most two elements: for the cube, all of them        *)
Subs == TLCEval({ Closure({Id(3), a, b}) : a \in Host, b \in Host })
Init == h \in Subs /\ u \in Pat /\ seen = <<u>> /\ todo = h
(* the enumeration: take any remaining element                                   *)
Take == /\ todo # {}
        /\ LET q == CHOOSE x \in todo : TRUE
               v == Act(q, u)
           IN /\ todo' = todo \ {q}
              /\ seen' = IF \E i \in 1..Len(seen) : seen[i] = v THEN seen ELSE Append(seen, v)
        /\ UNCHANGED <<h, u>>
Next == Take
Done == todo = {}
First == seen[1] = u
NoRepeat == \A i, j \in 1..Len(seen) : i # j => seen[i] # seen[j]
Complete == Done => /\ { seen[i] : i \in 1..Len(seen) } = Orbit(h, u)
                    /\ Len(seen) * Cardinality(Stab(h, u)) = Cardinality(h)
                    /\ \A i \in 1..Len(seen) : Cardinality(Coset(h, u, seen[i])) = Cardinality(Stab(h, u))
Reversible == Subgroup(Stab(Host, u), h)
Emit == Done => PrintT("CASE " \o ToJson([g |-> SetToSeq(h), u |-> u, rev |-> Reversible]))
=================================================================================
