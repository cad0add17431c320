--------------------------------- MODULE Batch -----------------------------------
(* Lists of d x d matrices stored row by row (C27): row i of the batch holds the *)
(* entries of matrix i, entry (p, q) in column (p - 1) d + q.                    *)
EXTENDS LinAlg
Flat(A) == LET d == Rows(A) IN VecOf(d * d, LAMBDA c : A[((c - 1) \div d) + 1][((c - 1) % d) + 1])
Unflat(v, d) == Mat(d, d, LAMBDA p, q : v[((p - 1) * d) + q])
BDot(l, m, d) == [i \in 1..Len(l) |-> Flat(MMul(Unflat(l[i], d), Unflat(m[i], d)))]
BTr(l, d) == [i \in 1..Len(l) |-> Tr(Unflat(l[i], d))]
BDet(l, d) == [i \in 1..Len(l) |-> Det(Unflat(l[i], d))]
BT(l, d) == [i \in 1..Len(l) |-> Flat(Transp(Unflat(l[i], d)))]
(* idx lists, for every distinct row, exactly one place where it occurs          *)
OneEach(l, idx) == /\ \A i \in 1..Len(idx) : idx[i] \in 1..Len(l)
                   /\ \A i, j \in 1..Len(idx) : i # j => ~VEq(l[idx[i]], l[idx[j]])
                   /\ \A r \in 1..Len(l) : \E i \in 1..Len(idx) : VEq(l[idx[i]], l[r])
=================================================================================
