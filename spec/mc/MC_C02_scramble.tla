----------------------------- MODULE MC_C02_scramble -----------------------------
(* Histories to replay: a normal form H, then words of elementary column         *)
(* operations; every matrix reached spans the same lattice, so its normal form   *)
(* must still be H.                                                              *)
EXTENDS HNF, Json
CONSTANTS Dets, N, Depth
VARIABLES h0, m, n
AddCol(A, i, j, t) == Mat(N, N, LAMBDA r, c : IF c = i THEN A[r][i] + t * A[r][j] ELSE A[r][c])
Swap(A, i, j) == Mat(N, N, LAMBDA r, c : IF c = i THEN A[r][j] ELSE IF c = j THEN A[r][i] ELSE A[r][c])
NegCol(A, i) == Mat(N, N, LAMBDA r, c : IF c = i THEN -A[r][c] ELSE A[r][c])
Init == h0 \in UNION {HNFsOfDet(d, N) : d \in Dets} /\ m = h0 /\ n = 0
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED h0
        /\ \E i, j \in 1..N : i # j /\ \/ m' = AddCol(m, i, j, 2) \/ m' = AddCol(m, i, j, -1)
                                       \/ (i < j /\ m' = Swap(m, i, j)) \/ (j = 1 /\ m' = NegCol(m, i))
View == <<h0, m>>
Same == IsNormalFormOf(h0, m, N)
Emit == PrintT("CASE " \o ToJson([h |-> h0, m |-> m]))
=================================================================================
