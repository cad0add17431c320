--------------------------------- MODULE MC_C27 ---------------------------------
(* Two batches grow by one matrix each per step, and the rows seen so far are    *)
(* kept once each.  Checked: storing is a bijection, the batched operations obey *)
(* the laws of matrix algebra entry by entry, a step does not disturb earlier    *)
(* entries, and the list of kept places is always one place per distinct row.    *)
EXTENDS Batch, Json
CONSTANTS Dims, E, Depth
VARIABLES d, l, m, kept
P2 == { << <<a, b>>, <<c, x>> >> : a \in E, b \in E, c \in E, x \in E }
P3 == { << <<1, 2, 0>>, <<0, 1, 3>>, <<4, 0, 1>> >>, << <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>> >>, << <<2, -1, 0>>, <<1, 1, 1>>, <<0, 5, -3>> >>,
        << <<1, 2, 3>>, <<4, 5, 6>>, <<7, 8, 9>> >>, << <<-1, 0, 2>>, <<0, 0, 0>>, <<3, 1, 1>> >> }
P4 == { Mat(4, 4, LAMBDA i, j : ((i * j + i) % 5) - 2), Mat(4, 4, LAMBDA i, j : IF j = i + 1 THEN 2 ELSE IF i = 4 /\ j = 1 THEN -1 ELSE IF i = j THEN 1 ELSE 0),
        Mat(4, 4, LAMBDA i, j : ((i * i + (3 * j)) % 7) - 3) }
Pool == CASE d = 1 -> { << <<a>> >> : a \in E } [] d = 2 -> P2 [] d = 3 -> P3 [] OTHER -> P4
Init == d \in Dims /\ l = <<>> /\ m = <<>> /\ kept = <<>>
Next == /\ Len(l) < Depth
        /\ \E A \in Pool, B \in Pool : l' = Append(l, Flat(A)) /\ m' = Append(m, Flat(B))
        /\ kept' = IF \E i \in 1..Len(kept) : l[kept[i]] = l'[Len(l')] THEN kept ELSE Append(kept, Len(l'))
        /\ UNCHANGED d
Laws == /\ BT(BDot(l, m, d), d) = BDot(BT(m, d), BT(l, d), d)
        /\ BTr(BDot(l, m, d), d) = BTr(BDot(m, l, d), d)
        /\ \A i \in 1..Len(l) : BDet(BDot(l, m, d), d)[i] = BDet(l, d)[i] * BDet(m, d)[i]
        /\ BT(BT(l, d), d) = l /\ BDet(BT(l, d), d) = BDet(l, d)
        /\ \A i \in 1..Len(l) : Flat(Unflat(l[i], d)) = l[i]
        /\ \A i \in 1..Len(l) : LET A == Unflat(l[i], d) IN MEq(MMul(Transp(Cof(A)), A), MScale(Det(A), Id(d)))
Kept == OneEach(l, kept)
Emit == l # <<>> => PrintT("CASE " \o ToJson([d |-> d, l |-> l, m |-> m]))
=================================================================================
