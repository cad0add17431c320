--------------------------------- MODULE T_C25 ----------------------------------
(* Conformance for C25: e.tp the two pairs (a, n) of the twin, e.rel whether the *)
(* variants are related by a 180 degree rotation, e.fs the reported fractions.   *)
EXTENDS Twins, Conform
VARIABLES k, l, st
Start(c) == "start"
An(e, i) == Outer(e.tp[i][1], e.tp[i][2])
Clear(U, V) == Below(U, V, Rat(101, 100)) <= 2 /\ Below(U, V, Rat(99, 100)) >= 1
(* the cofactor conditions: the quadratic form does not depend on the fraction   *)
(* (up to the rounding of a and n), every mixture is compatible if one is        *)
Flat(U, A, al) == NLe(NMul(al, al), NMul(NTen(18), NMul(Tr(Gram(MMul(U, A))), Tr(Gram(Cof(MSub(Sq2(U), Id(3))))))))
(* the mixture at a reported fraction                                            *)
FracVerdict(o, e, i) ==
  IF o.t = "none" THEN
     (IF ~e.rel \/ ~Clear(e.u, e.v) THEN "ok"
      ELSE LET A == An(e, i) al == Alp(e.u, A)
           IN IF Flat(e.u, A, al) THEN (IF MidOne(Sq2(e.u), NTen(6)) /\ Saddle(Sq2(e.u), NTen(3)) THEN "every volume fraction will do but none is reported" ELSE "ok")
              ELSE IF NLe(NAbs(al), NTen(7)) THEN "ok"
              ELSE LET r2 == Root2(e.u, A)
                   IN IF NLe(r2, NTen(6)) \/ NLe(NSub(NDiv(1, 4), NTen(3)), r2) THEN "ok"
                      ELSE IF Saddle(Mix(e.u, A, NAdd(NDiv(1, 2), NSqrt(r2))), NTen(3)) THEN "a volume fraction exists but none is reported" ELSE "ok")
  ELSE IF o.t # "num" THEN "a volume fraction is neither a number nor None"
  ELSE IF NLt(o.v, 0) \/ NLt(1, o.v) THEN "a volume fraction is outside [0, 1]"
  ELSE IF ~MidOne(Mix(e.u, An(e, i), o.v), NMul(Rat(11, 10), NTen(4))) THEN "the mixture at the volume fraction is not compatible"
  ELSE IF e.rel /\ Clear(e.u, e.v) /\ ~NEq(o.v, 0) /\ ~NEq(o.v, 1) /\ ~NLe(NAbs(GF(e.u, An(e, i), o.v)), NTen(9)) THEN "the volume fraction is inaccurate"
  ELSE "ok"
Sel(ty) == IF ty = "I" THEN {1} ELSE IF ty = "II" THEN {2} ELSE {1, 2}
Good(e) == { i \in Sel(e.ty) : e.fs[i].t # "none" }
(* -- habit planes ------------------------------------------------------------- *)
WellFormed(o) == o.t = "list" /\ \A i \in 1..Len(o.v) : o.v[i].t = "list" /\ Len(o.v[i].v) = 3 /\
                    IsArr(o.v[i].v[1]) /\ IsMat(o.v[i].v[1].v, 3, 3) /\ \A j \in 2..3 : IsArr(o.v[i].v[j]) /\ IsVec(o.v[i].v[j].v, 3)
R(o, i) == o.v[i].v[1].v
B(o, i) == o.v[i].v[2].v
M(o, i) == o.v[i].v[3].v
Def(o, i) == MAdd(Id(3), Outer(B(o, i), M(o, i)))
(* C's at the fraction and at its complement, for solution i                     *)
Cs(e, i) == << Mix(e.u, An(e, i), e.fs[i].v), Mix(e.u, An(e, i), NSub(1, e.fs[i].v)) >>
Edge(e, i) == NEq(e.fs[i].v, 0) \/ NEq(e.fs[i].v, 1)
TolOf(e, i) == IF Edge(e, i) THEN NMul(5, NTen(4)) ELSE NTen(6)
Fits(o, j, C, tol) == MClose(Gram(Def(o, j)), C, tol)
PlanesVerdict(o, e) ==
  IF ~WellFormed(o) THEN "not a list of triples"
  ELSE IF \E j \in 1..Len(o.v) : ~NClose(Norm2(M(o, j)), 1, NTen(9)) THEN "the normal of a habit plane is not a unit vector"
  ELSE IF \E j \in 1..Len(o.v) : ~Rotation(R(o, j), NMul(2, NTen(3))) THEN "R of a habit plane is not a rotation"
  ELSE LET P == [i \in 1..2 |-> IF i \in Good(e) THEN Cs(e, i) ELSE <<>>]
           Hits(j) == { q \in Good(e) \X {1, 2} : Fits(o, j, P[q[1]][q[2]], TolOf(e, q[1])) }
       IN IF \E j \in 1..Len(o.v) : Hits(j) = {} THEN "a habit plane does not solve the equation of a selected twin at f or 1 - f"
          ELSE IF \E j \in 1..Len(o.v) : \A q \in Hits(j) : ~Rotation(R(o, j), TolOf(e, q[1])) THEN "R of a habit plane is not a rotation"
          ELSE IF \E j \in 1..Len(o.v) : \A q \in Hits(j) : LET S == MMul(Transp(R(o, j)), Def(o, j))
                                                             IN ~MClose(S, Transp(S), TolOf(e, q[1])) \/ ~PosDef(Sym(S)) THEN "R does not carry the stretch of the mixture to 1 + b m^T"
          ELSE IF \E i \in Good(e) : \E q \in 1..2 : Saddle(P[i][q], NTen(3)) /\
                    ~\E j1, j2 \in 1..Len(o.v) : j1 < j2 /\ Fits(o, j1, P[i][q], TolOf(e, i)) /\ Fits(o, j2, P[i][q], TolOf(e, i))
                                                  /\ ~MClose(Def(o, j1), Def(o, j2), NTen(5)) THEN "one of the two habit planes of a mixture is missing"
          ELSE "ok"
Verdict(s, e) ==
  CASE e.op = "volumefrac" ->
         IF e.out.t # "list" \/ Len(e.out.v) # 2 THEN "not two volume fractions"
         ELSE LET a == FracVerdict(e.out.v[1], e, 1) IN IF a # "ok" THEN a ELSE FracVerdict(e.out.v[2], e, 2)
    [] e.op = "iscompatible" ->
         IF e.fs = <<>> THEN "no volume fractions"
         ELSE IF ~IsBool(e.out) THEN "the answer is not a boolean"
         ELSE IF e.out.v # (Good(e) # {}) THEN "the compatibility answer contradicts the volume fractions"
         ELSE "ok"
    [] e.op = "habitplanes" ->
         IF e.fs = <<>> THEN "no volume fractions"
         ELSE IF Good(e) = {} THEN (IF Raises(e.out, {"AttributeError"}) THEN "ok" ELSE "an incompatible twin has habit planes")
         ELSE IF IsExc(e.out) THEN "a compatible twin has no habit planes"
         ELSE IF ~e.rel \/ ~Clear(e.u, e.v) THEN "ok"
         ELSE PlanesVerdict(e.out, e)
    [] e.op = "bad type" -> IF Raises(e.out, {"ValueError"}) THEN "ok" ELSE "an unknown twin type is accepted"
    [] e.op = "untwinnable" -> IF Raises(e.out, {"AttributeError"}) THEN "ok" ELSE "an untwinnable pair has volume fractions"
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
