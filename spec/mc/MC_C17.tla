--------------------------------- MODULE MC_C17 ---------------------------------
(* The direct search on rectangular 2D lattices: from any start, the ball is     *)
(* enumerated in slices; a slice that improves the worst kept distance shrinks   *)
(* the radius and the enumeration resumes behind it.  Whatever the start and the *)
(* slice size, the kept solutions end up as the nsol best orbits.                *)
EXTENDS Search, SequencesExt, Json
CONSTANTS Pairs, NSols, Slices, Starts
PairsQ == { <<1, 1, 1, 1>>, <<1, 1, 1, 2>>, <<2, 2, 2, 1>>, <<1, 2, 2, 2>> }
PairsT == PairsQ \cup { <<1, 2, 2, 3>>, <<2, 3, 3, 2>>, <<3, 3, 2, 4>>, <<2, 2, 3, 3>> }
StartsQ == { << <<1, 0>>, <<0, 1>> >>, << <<2, 1>>, <<1, 1>> >>, << <<1, 1>>, <<0, -1>> >> }
StartsT == StartsQ \cup { << <<0, 1>>, <<1, 2>> >>, << <<2, 1>>, <<1, 0>> >> }
VARIABLES p, nsol, slice, start, ball, pos, r2, kept, done
D2(a, b) == << <<a * a, 0>>, <<0, b * b>> >>
G1 == D2(p[1], p[2])
G2 == D2(p[3], p[4])
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
N2(L) == L[1][1] * L[1][1] + L[1][2] * L[1][2] + L[2][1] * L[2][1] + L[2][2] * L[2][2]
Dist(L) == CauchyG(L, G1, MInv(G2))
Orb(L) == Equiv(L, Aut(G1), Aut(G2))
(* |L|^2 <= (sqrt 2 + sqrt d) (largest stretch of E2 / smallest of E1)^2         *)
Radius2(d) == NFloor(NDiv(NMul(NAdd(NAdd(NSqrt(2), NSqrt(d)), NTen(9)), MaxI(G2[1][1], G2[2][2])), MinI(G1[1][1], G1[2][2])))
Root(r) == CHOOSE i \in 0..r : i * i <= r /\ (i + 1) * (i + 1) > r
BallOf(r) == LET m == Root(r) IN { L \in { << <<a, b>>, <<c, d>> >> : a \in (-m)..m, b \in (-m)..m, c \in (-m)..m, d \in (-m)..m } : N2(L) <= r }
(* keep the nsol smallest and everything tied with the last                      *)
Trim(K) == IF Len(K) <= nsol THEN K ELSE LET b == Dist(K[nsol]) IN SelectSeq(K, LAMBDA x : NLe(Dist(x), b))
Known(K, L) == \E i \in 1..Len(K) : L \in Orb(K[i])
Add(K, L) == IF NEq(Det(L), 0) \/ Known(K, L) THEN K
             ELSE Trim(SortSeq(Append(K, L), LAMBDA x, y : NLt(Dist(x), Dist(y))))
Worst(K) == Dist(K[Len(K)])
RECURSIVE AddAll(_, _, _)
AddAll(K, s, i) == IF i > Len(s) THEN K ELSE AddAll(IF Len(K) < nsol \/ NLe(Dist(s[i]), Worst(K)) THEN Add(K, s[i]) ELSE K, s, i + 1)
(* random starting points until nsol orbits are known                            *)
Init == /\ p \in Pairs /\ nsol \in NSols /\ slice \in Slices /\ start \in Starts
        /\ kept = AddAll(<<>>, << start, << <<1, 2>>, <<0, 1>> >>, << <<1, 3>>, <<0, 1>> >>, << <<1, 3>>, <<1, 4>> >> >>, 1)
        /\ r2 = Radius2(Worst(kept)) /\ ball = SetToSeq(BallOf(r2)) /\ pos = 1 /\ done = FALSE
(* the next slice: slice vectors inside the current radius, from pos on          *)
RECURSIVE Take(_, _)
Take(i, n) == IF n = 0 \/ i > Len(ball) THEN i ELSE Take(i + 1, IF N2(ball[i]) <= r2 THEN n - 1 ELSE n)
Next == /\ ~done
        /\ LET q == Take(pos, slice)
               s == SelectSeq(SubSeq(ball, pos, q - 1), LAMBDA L : N2(L) <= r2)
               K == AddAll(kept, s, 1)
           IN /\ kept' = K /\ pos' = q /\ done' = (q > Len(ball))
              /\ r2' = IF NLt(Worst(K), Worst(kept)) THEN Radius2(Worst(K)) ELSE r2
        /\ UNCHANGED <<p, nsol, slice, start, ball>>
(* every correspondence closer than the last requested one is a kept one         *)
Best == done => LET dn == Dist(kept[nsol]) IN
                /\ Len(kept) >= nsol
                /\ \A L \in Within(G1, G2, dn) : NEq(Dist(L), dn) \/ Known(kept, L)
                /\ \A i \in 1..(Len(kept) - 1) : NLe(Dist(kept[i]), Dist(kept[i + 1]))
                /\ \A i \in 1..Len(kept) : \A j \in 1..(i - 1) : ~(kept[i] \in Orb(kept[j]))
Shrinks == [][r2' <= r2]_<<r2, kept, pos>>
Lid(a, b) == IF a = b THEN 1 ELSE 2
Par(a, b) == IF a = b THEN <<a>> ELSE <<a, b>>
Emit == pos = 1 => PrintT("CASE " \o ToJson([a |-> <<Lid(p[1], p[2]), Par(p[1], p[2])>>, m |-> <<Lid(p[3], p[4]), Par(p[3], p[4])>>,
                                             dim |-> 2, nsol |-> nsol, slice |-> slice]))
=================================================================================
