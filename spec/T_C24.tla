--------------------------------- MODULE T_C24 ----------------------------------
(* Conformance for C24: e.u, e.v the two stretches, e.e an axis known to relate  *)
(* them (or nothing), e.tp the parameters that direct_cof is computed from.      *)
EXTENDS Twins, Conform
VARIABLES k, l, st
Start(c) == "start"
SureDiff(U, V) == NLe(NTen(4), MaxDiff(U, V))
SureTwin(U, V) == SureDiff(U, V) /\ MidIn(U, V, Rat(9951, 10000), Rat(10049, 10000))
SureNot(U, V) == MEq(U, V) \/ ~MidIn(U, V, Rat(9949, 10000), Rat(10051, 10000))
Clear(U, V) == Below(U, V, Rat(101, 100)) <= 2 /\ Below(U, V, Rat(99, 100)) >= 1
Count(U, e) == IF KryBelow(e, U, NTen(9)) THEN 2 ELSE IF ~KryBelow(e, U, NTen(3)) THEN 1 ELSE 0
Big(U) == NMax(1, NSq(MaxAbs(U)))
WellFormed(o) == o.t = "list" /\ Len(o.v) = 2 /\ \A i \in 1..2 : o.v[i].t = "list" /\ Len(o.v[i].v) = 3 /\
                    IsArr(o.v[i].v[1]) /\ IsMat(o.v[i].v[1].v, 3, 3) /\ \A j \in 2..3 : IsArr(o.v[i].v[j]) /\ IsVec(o.v[i].v[j].v, 3)
Q(o, i) == o.v[i].v[1].v
A(o, i) == o.v[i].v[2].v
N(o, i) == o.v[i].v[3].v
(* every solution: Q V - U = a n^T, |n| = 1, Q a rotation up to rt               *)
Solution(o, i, U, V, rt) ==
  IF ~NClose(Norm2(N(o, i)), 1, NTen(8)) THEN "the normal is not a unit vector"
  ELSE IF ~MClose(MSub(MMul(Q(o, i), V), U), Outer(A(o, i), N(o, i)), NMul(Big(U), NTen(7))) THEN "Q V - U is not a n^T"
  ELSE IF ~Rotation(Q(o, i), rt) THEN "Q is not a rotation"
  ELSE "ok"
TwinVerdict(o, U, V, e) ==
  IF ~WellFormed(o) THEN "not two solutions"
  ELSE LET exact == e # <<>> /\ Clear(U, V)
           rt == IF exact THEN NTen(7) ELSE Rat(2, 100)
           s1 == Solution(o, 1, U, V, rt)
           s2 == Solution(o, 2, U, V, rt)
       IN IF s1 # "ok" THEN s1 ELSE IF s2 # "ok" THEN s2
          ELSE IF Clear(U, V) /\ MClose(Outer(A(o, 1), N(o, 1)), Outer(A(o, 2), N(o, 2)), NTen(4)) THEN "the two solutions are the same"
          ELSE IF exact /\ ~Parallel(N(o, 1), e, NTen(6)) /\ ~(Count(U, e) # 1 /\ Parallel(N(o, 1), Second(e, U), NTen(4))) THEN "the first solution is not the type I twin"
          ELSE "ok"
XVerdict(o, U, V, e, x2(_, _)) ==
  IF SureNot(U, V) THEN (IF Raises(o, {"AttributeError"}) THEN "ok" ELSE "an untwinnable pair has a cofactor parameter")
  ELSE IF ~SureTwin(U, V) THEN "ok"
  ELSE IF e = <<>> THEN (IF IsNum(o) \/ Raises(o, {"AttributeError"}) THEN "ok" ELSE "neither a number nor AttributeError")
  ELSE IF ~Clear(U, V) \/ Count(U, e) = 0 THEN "ok"
  ELSE IF Count(U, e) = 2 THEN (IF Raises(o, {"AttributeError"}) THEN "ok" ELSE "a compound twin has a cofactor parameter")
  ELSE IF ~IsNum(o) THEN "the cofactor parameter is not a number"
  ELSE IF NLt(o.v, 0) \/ ~NCloseRel(NSq(o.v), x2(e, U), NTen(6)) THEN "wrong cofactor parameter"
  ELSE "ok"
(* - U a . cof(U^2 - 1) n                                                        *)
Direct(U, a, n) == NNeg(Dot(MVec(U, a), MVec(Cof(MSub(Sq2(U), Id(3))), n)))
Verdict(s, e) ==
  CASE e.op = "twinparam" ->
         IF SureNot(e.u, e.v) THEN (IF Raises(e.out, {"AttributeError"}) THEN "ok" ELSE "an untwinnable pair has twin parameters")
         ELSE IF ~SureTwin(e.u, e.v) THEN "ok"
         ELSE TwinVerdict(e.out, e.u, e.v, e.e)
    [] e.op = "XI" -> XVerdict(e.out, e.u, e.v, e.e, XI2)
    [] e.op = "XII" -> XVerdict(e.out, e.u, e.v, e.e, XII2)
    [] e.op = "ax" ->
         IF SureNot(e.u, e.v) THEN (IF Raises(e.out, {"AttributeError"}) THEN "ok" ELSE "an untwinnable pair has axes")
         ELSE IF SureTwin(e.u, e.v) /\ e.out.t # "list" THEN "not a list of axes" ELSE "ok"
    [] e.op = "direct_cof" ->
         IF SureNot(e.u, e.v) THEN (IF Raises(e.out, {"AttributeError"}) THEN "ok" ELSE "an untwinnable pair has cofactor values")
         ELSE IF ~SureTwin(e.u, e.v) THEN "ok"
         ELSE IF ~IsArr(e.out) \/ ~IsVec(e.out.v, 2) THEN "not two cofactor values"
         ELSE IF \E i \in 1..2 : ~NClose(e.out.v[i], Direct(e.u, e.tp[2 * i - 1], e.tp[2 * i]), NMul(NTen(8), NSq(Big(e.u)))) THEN "wrong cofactor value"
         ELSE "ok"
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
