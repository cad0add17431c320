-------------------------------- MODULE SelfTest --------------------------------
(* The arithmetic TLC evaluates with java/Num.java and java/LinAlg.java agrees    *)
(* with the definitions: Num against integer arithmetic on fractions, LinAlg      *)
(* against its own text (LinAlgDef is LinAlg.tla under a name without override;   *)
(* tools/selftest.sh makes the copy).                                             *)
EXTENDS LinAlg
D == INSTANCE LinAlgDef
VARIABLE s
K == (-5)..5
P == 1..4
(* fractions as pairs *)
Q(x) == NDiv(x[1], x[2])
Fr == K \X P
FloorDiv(a, b) == a \div b                      \* TLA+ division rounds down for b > 0
NumOk(x) == \A y \in Fr :
  /\ NEq(NMul(NAdd(Q(x), Q(y)), x[2] * y[2]), x[1] * y[2] + y[1] * x[2])
  /\ NEq(NMul(NSub(Q(x), Q(y)), x[2] * y[2]), x[1] * y[2] - y[1] * x[2])
  /\ NEq(NMul(NMul(Q(x), Q(y)), x[2] * y[2]), x[1] * y[1])
  /\ (y[1] = 0 \/ NEq(NMul(NDiv(Q(x), Q(y)), x[2] * y[1]), x[1] * y[2]))
  /\ NLe(Q(x), Q(y)) = (x[1] * y[2] <= y[1] * x[2])
  /\ NLt(Q(x), Q(y)) = (x[1] * y[2] < y[1] * x[2])
  /\ NEq(Q(x), Q(y)) = (x[1] * y[2] = y[1] * x[2])
OneOk(x) ==
  /\ NEq(NNeg(Q(x)), NSub(0, Q(x))) /\ NEq(NAbs(Q(x)), IF x[1] < 0 THEN NNeg(Q(x)) ELSE Q(x))
  /\ NSgn(Q(x)) = (IF x[1] < 0 THEN -1 ELSE IF x[1] = 0 THEN 0 ELSE 1)
  /\ NEq(NFloor(Q(x)), FloorDiv(x[1], x[2]))
  /\ NIsInt(Q(x)) = (x[1] % x[2] = 0) /\ NIs(Q(x)) /\ ~NIs("nan")
  /\ \A k \in 0..6 : LET t == NMul(NTrunc(Q(x), k), 2^k)
                     IN NIsInt(t) /\ NLe(t, NMul(Q(x), 2^k)) /\ NLt(NMul(Q(x), 2^k), NAdd(t, 1))
  /\ (x[1] < 0 \/ \A k \in 0..8 : LET r == NSqrtK(Q(x), k)
                                      t == NAdd(r, NDiv(1, 2^k))
                                  IN NIsInt(NMul(r, 2^k)) /\ NLe(0, r) /\ NLe(NMul(r, r), Q(x)) /\ NLt(Q(x), NMul(t, t)))
  /\ NEq(NStr(Q(x)), Q(x))                      \* the text of a number stands for the number
(* beyond 32 bits *)
Big == LET p == NTenPow(30) q == NAdd(p, 1)
       IN NEq(NMul(NDiv(p, q), q), p) /\ NEq(NSub(NMul(q, q), NMul(p, p)), NAdd(NMul(2, p), 1)) /\ NLt(NDiv(p, q), 1)
          /\ NEq(NFloor(NNeg(NDiv(p, q))), -1) /\ NEq("1000000000000000000000000000000", p) /\ NEq("-3/4", NDiv(-3, 4))
(* matrices: a walk through pseudo-random small fractions *)
Step(n) == (n * 1103 + 12345) % 30011
Ent(n, i, j) == NDiv((((n * (7 * i + 3 * j + 1)) \div 11) % 19) - 9, ((n + 5 * i * j) % 4) + 1)
M(n, r, c) == [i \in 1..r |-> [j \in 1..c |-> Ent(n, i, j)]]
V(n, r) == [i \in 1..r |-> Ent(n, i, i + 2)]
MatOk(n) == \A r \in 1..4 : LET A == M(n, r, r)
                                B == M(Step(n), r, r)
                                u == V(n, r)
                                v == V(Step(n), r)
                                x == Ent(n, 5, 6)
  IN /\ NEq(Dot(u, v), D!Dot(u, v)) /\ MEq(Transp(A), D!Transp(A)) /\ MEq(MulT(A, B), D!MulT(A, B))
     /\ MEq(MMul(A, B), D!MMul(A, B)) /\ MEq(Gram(A), D!Gram(A)) /\ VEq(MVec(A, v), D!MVec(A, v))
     /\ MEq(MAdd(A, B), D!MAdd(A, B)) /\ MEq(MSub(A, B), D!MSub(A, B)) /\ MEq(MScale(x, A), D!MScale(x, A))
     /\ VEq(VAdd(u, v), D!VAdd(u, v)) /\ VEq(VSub(u, v), D!VSub(u, v)) /\ VEq(VScale(x, v), D!VScale(x, v))
     /\ NEq(Det(A), D!Det(A)) /\ MEq(Cof(A), D!Cof(A)) /\ MEq(MTrunc(A, 5), D!MTrunc(A, 5))
     /\ (NEq(Det(A), 0) \/ (MEq(MInv(A), D!MInv(A)) /\ MEq(MMul(A, MInv(A)), Id(r))))
     /\ \A c \in 1..4 : LET R == M(n, r, c) IN MEq(Transp(R), D!Transp(R)) /\ MEq(MulT(R, R), D!MulT(R, R)) /\ MEq(Gram(R), D!Gram(R))
Init == s = 17
Next == s # 30011 /\ s' = IF s = 0 THEN 30011 ELSE Step(s)
Inv == MatOk(s)
ASSUME Big
ASSUME \A x \in Fr : NumOk(x) /\ OneOk(x)
=================================================================================
