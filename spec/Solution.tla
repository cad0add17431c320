-------------------------------- MODULE Solution --------------------------------
(* The fields of a reported correspondence L between parent basis E1 and product *)
(* basis E2 (conventional bases K1, K2): F E1 L = E2, C = F^T F, u = sqrt(C).    *)
EXTENDS Distance, HNF
Fgrad(L, E1, E2) == MMul(E2, MInv(MMul(E1, L)))
RightCG(L, E1, E2) == Gram(Fgrad(L, E1, E2))
(* K1 cor and E1 L E2^-1 K2 are the same vectors                                 *)
ConvCor(L, E1, K1, E2, K2) == MMul(MInv(K1), MMul(E1, MMul(L, MMul(MInv(E2), K2))))
Charpoly(S) == IF Rows(S) = 2 THEN <<Tr(S), Det(S)>> ELSE <<Tr(S), I2(S), Det(S)>>
Rel(x) == NMul(NTen(7), NMax(1, x))
(* u is the positive square root of C                                            *)
IsRootOf(u, C) == LET t == Rel(NSq(MaxAbs(C))) IN
                  /\ MClose(u, Transp(u), t) /\ PosDef(Sym(u)) /\ MClose(MMul(u, u), C, t)
(* v are the eigenvalues of the symmetric u, in increasing order                 *)
Sorted(v) == \A i \in 1..(Len(v) - 1) : NLe(v[i], v[i + 1])
ElemSym(v) == IF Len(v) = 2 THEN << NAdd(v[1], v[2]), NMul(v[1], v[2]) >>
              ELSE << NAdd(v[1], NAdd(v[2], v[3])), NAdd(NMul(v[1], v[2]), NAdd(NMul(v[1], v[3]), NMul(v[2], v[3]))), NMul(v[1], NMul(v[2], v[3])) >>
AreEigs(v, u) == Sorted(v) /\ VClose(ElemSym(v), Charpoly(Sym(u)), Rel(NMul(MaxAbs(u), NSq(MaxAbs(u)))))
(* an orientation preserving equivalent exists                                   *)
CanOrient(L, A1, A2) == NLt(0, Det(L)) \/ \E m \in A1 \cup A2 : NEq(Det(m), -1)
=================================================================================
