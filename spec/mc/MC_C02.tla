--------------------------------- MODULE MC_C02 ---------------------------------
(* Column reduction of a full-rank integer matrix to Hermite normal form, with   *)
(* the order of the elementary steps left open, started from every matrix with   *)
(* entries in -B..B; invariants: the lattice never changes and what cannot be    *)
(* reduced further is the normal form, so it does not depend on the order.       *)
EXTENDS HNF
CONSTANTS B, N
VARIABLES m, h
Entry == (-B)..B
Bases == { A \in [1..N -> [1..N -> Entry]] : Det(A) # 0 }
Init == m \in Bases /\ h = m
AddCol(A, i, j, t) == Mat(N, N, LAMBDA r, c : IF c = i THEN A[r][i] + t * A[r][j] ELSE A[r][c])
Swap(A, i, j) == Mat(N, N, LAMBDA r, c : IF c = i THEN A[r][j] ELSE IF c = j THEN A[r][i] ELSE A[r][c])
NegCol(A, i) == Mat(N, N, LAMBDA r, c : IF c = i THEN -A[r][c] ELSE A[r][c])
(* rows above r are already triangular                                           *)
Done(A, r) == \A i \in 1..(r - 1) : (\A j \in (i + 1)..N : A[i][j] = 0) /\ A[i][i] > 0
Abs(x) == IF x < 0 THEN -x ELSE x
(* Euclid's step on row r between two columns not yet fixed                      *)
GcdStep(r, i, j) == /\ Done(h, r) /\ i # j /\ i >= r /\ j >= r
                    /\ h[r][j] # 0 /\ Abs(h[r][i]) >= Abs(h[r][j])
                    /\ h' = AddCol(h, i, j, -((h[r][i]) \div (h[r][j])))
                    /\ h' # h
Place(r, i) == /\ Done(h, r) /\ i > r /\ h[r][i] # 0 /\ (\A j \in r..N : j # i => h[r][j] = 0)
               /\ h' = Swap(h, i, r)
Positive(r) == Done(h, r) /\ h[r][r] < 0 /\ (\A j \in (r + 1)..N : h[r][j] = 0) /\ h' = NegCol(h, r)
(* entries left of the diagonal                                                  *)
Tidy(r, j) == /\ Done(h, N + 1) /\ j < r /\ ~(h[r][j] <= 0 /\ h[r][j] > -h[r][r])
              /\ (\A i \in 1..(r - 1) : i > j => h[i][j] <= 0 /\ h[i][j] > -h[i][i])
              /\ \E t \in -50..50 : h[r][j] + t * h[r][r] <= 0 /\ h[r][j] + t * h[r][r] > -h[r][r] /\ h' = AddCol(h, j, r, t)
Next == /\ UNCHANGED m
        /\ \/ \E r, i, j \in 1..N : GcdStep(r, i, j)
           \/ \E r, i \in 1..N : Place(r, i) \/ Tidy(r, i)
           \/ \E r \in 1..N : Positive(r)
LatticeKept == SameLattice(h, m)
Terminal == ~ ENABLED Next
EndsInNormalForm == Terminal => IsNormalFormOf(h, m, N)
Unique == Terminal => \A H \in HNFsOfDet(NAbs(Det(m)), N) : IsNormalFormOf(H, m, N) => H = h
=================================================================================
