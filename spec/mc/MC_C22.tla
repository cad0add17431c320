--------------------------------- MODULE MC_C22 ---------------------------------
(* Reduction as a transition system on integer bases: round one coefficient      *)
(* away, or swap two neighbours that violate the exchange condition, in any      *)
(* order.  The lattice never changes, every run ends, and where nothing is left  *)
(* to do the basis is reduced.                                                   *)
EXTENDS Reduction, Json
CONSTANTS N, B, Stride
VARIABLES e0, e, swaps
Ent == (0 - B)..B
Mats == IF N = 2 THEN { << <<a, b>>, <<c, d>> >> : a \in Ent, b \in Ent, c \in Ent, d \in Ent }
        ELSE { << <<a, b, c>>, <<0, d, f>>, <<0, 0, g>> >> : a \in Ent, b \in Ent, c \in Ent, d \in Ent, f \in Ent, g \in 1..B }
Hash(M) == IF N = 2 THEN M[1][1] * 7 + M[1][2] * 5 + M[2][1] * 3 + M[2][2] ELSE M[1][1] * 7 + M[1][2] * 5 + M[1][3] * 11 + M[2][2] * 3 + M[2][3] * 13 + M[3][3]
Starts == { M \in Mats : ~NEq(Det(M), 0) /\ Hash(M) % Stride = 0 }
Init == e0 \in Starts /\ e = e0 /\ swaps = 0
WithCol(M, i, v) == Mat(N, N, LAMBDA r, c : IF c = i THEN v[r] ELSE M[r][c])
Round(i, j) == LET O == Orth(e, N)
                   m == NRint(Mu(e, O, i, j))
               IN /\ NLt(NDiv(1, 2), NAbs(Mu(e, O, i, j)))
                  /\ e' = WithCol(e, i, VSub(Col(e, i), VScale(m, Col(e, j))))
                  /\ UNCHANGED <<e0, swaps>>
Swap(i) == /\ ~Exchange(e, i, 0)
           /\ e' = WithCol(WithCol(e, i, Col(e, i + 1)), i + 1, Col(e, i))
           /\ swaps' = swaps + 1 /\ UNCHANGED e0
Next == (\E i \in 2..N : \E j \in 1..(i - 1) : Round(i, j)) \/ \E i \in 1..(N - 1) : Swap(i)
SameLat == Unimodular(MMul(MInv(e0), e))
(* each swap lowers the product of the leading Gram determinants by 3/4          *)
RECURSIVE Pot(_, _)
Pot(M, k) == IF k = 0 THEN 1 ELSE NMul(Det(Mat(k, k, LAMBDA i, j : Dot(Col(M, i), Col(M, j)))), Pot(M, k - 1))
Falls == [][swaps' > swaps => NLt(NMul(Pot(e', N - 1), 4), NAdd(NMul(Pot(e, N - 1), 3), 1))]_<<e, swaps>>
EndsReduced == ~ENABLED Next => Reduced(e, 0)
Spec == Init /\ [][Next]_<<e0, e, swaps>>
Emit == e = e0 => PrintT("CASE " \o ToJson([e |-> e0]))
=================================================================================
