--------------------------------- MODULE MC_C01 ---------------------------------
(* The enumeration as the code performs it: start from the diagonal matrix and,  *)
(* for every position left of the diagonal and every admissible value, add a     *)
(* copy of each matrix that is still zero there.  Every diagonal over 1..D in    *)
(* dimension 1..N is explored.                                                   *)
EXTENDS HNF
CONSTANTS D, N, NDet
VARIABLES diag, acc, todo
RECURSIVE Modifs(_, _, _, _)
(* (i, j, d) in the order of the code: rows, then columns, then values           *)
Modifs(dg, i, j, d) ==
  IF i > Len(dg) THEN <<>>
  ELSE IF j >= i THEN Modifs(dg, i + 1, 1, 1)
  ELSE IF d >= dg[i] THEN Modifs(dg, i, j + 1, 1)
  ELSE << <<i, j, -d>> >> \o Modifs(dg, i, j, d + 1)
Diags == UNION { [1..n -> 1..D] : n \in 1..N }
DiagMat(d) == Mat(Len(d), Len(d), LAMBDA i, j : IF i = j THEN d[i] ELSE 0)
Init == diag \in Diags /\ acc = <<DiagMat(diag)>> /\ todo = Modifs(diag, 1, 1, 1)
Put(H, m) == Mat(Len(H), Len(H), LAMBDA i, j : IF i = m[1] /\ j = m[2] THEN m[3] ELSE H[i][j])
Ext(m) == LET Z(H) == H[m[1]][m[2]] = 0 IN [i \in 1..Len(SelectSeq(acc, Z)) |-> Put(SelectSeq(acc, Z)[i], m)]
Next == todo # <<>> /\ acc' = acc \o Ext(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED diag
Range(s) == {s[i] : i \in 1..Len(s)}
NoDuplicates == Cardinality(Range(acc)) = Len(acc)
Sound == \A H \in Range(acc) : IsHNF(H, Len(diag))
Complete == todo = <<>> => Range(acc) = HNFsOfDiag(diag)
ASSUME \A n \in 1..NDet : \A d \in 1..N : Cardinality(HNFsOfDet(n, d)) = HNFCount(n, d)
=================================================================================
