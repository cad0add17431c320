--------------------------------- MODULE T_C14 ----------------------------------
(* Conformance for C14: rotations are recomputed from sine and cosine series     *)
(* and compared with what the helpers returned.                                  *)
EXTENDS LinAlg, Trig, Conform
VARIABLES k, l, st
Start(c) == "start"
CosU(a, u) == IF u = "deg" THEN Cos(a) ELSE CosRad(a)
SinU(a, u) == IF u = "deg" THEN Sin(a) ELSE SinRad(a)
(* elementary rotation about a fixed axis                                        *)
El(ax, a, u) == LET c == NTrunc(CosU(a, u), 80)
                    s == NTrunc(SinU(a, u), 80)
                IN CASE ax = "X" -> << <<1, 0, 0>>, <<0, c, NNeg(s)>>, <<0, s, c>> >>
                     [] ax = "Y" -> << <<c, 0, s>>, <<0, 1, 0>>, <<NNeg(s), 0, c>> >>
                     [] ax = "Z" -> << <<c, NNeg(s), 0>>, <<s, c, 0>>, <<0, 0, 1>> >>
Chr(s, i) == SubSeq(s, i, i)
EulerM(e) == MMul(El(Chr(e.order, 3), e.a[3], e.unit), MMul(El(Chr(e.order, 2), e.a[2], e.unit), El(Chr(e.order, 1), e.a[1], e.unit)))
(* the rotation by the angle about the axis: 1 cos + (1-cos) z z^T + sin [z]x    *)
AxisAngle(a, u, v) ==
  LET n == NSqrtK(Norm2(v), 140)
      z == VecOf(3, LAMBDA i : NTrunc(NDiv(v[i], n), 120))
      c == CosU(a, u)
      s == SinU(a, u)
      X == << <<0, NNeg(z[3]), z[2]>>, <<z[3], 0, NNeg(z[1])>>, <<NNeg(z[2]), z[1], 0>> >>
  IN MAdd(MAdd(MScale(c, Id(3)), MScale(NSub(1, c), Outer(z, z))), MScale(s, X))
Tol == NTen(9)
Is(o, M) == IsArr(o) /\ o.shape = <<3, 3>> /\ MClose(o.v, M, Tol)
RotOK(o) == IsArr(o) /\ o.shape = <<3, 3>> /\ Rotation(o.v, Tol)
Fixes(o, v) == VClose(MVec(o.v, v), v, NMul(Tol, VMaxAbs(v)))
Verdict(s, e) ==
  CASE e.op = "quarter" -> Clauses(<< <<"the result is not a proper rotation", RotOK(e.out)>>,
                                      <<"the Euler helper is not the given turns one after the other about fixed axes", Is(e.out, e.want) /\ Is(e.out, EulerM(e))>> >>)
    [] e.op = "euler" -> Clauses(<< <<"the result is not a proper rotation", RotOK(e.out)>>,
                                    <<"the Euler helper is not the given turns one after the other about fixed axes", Is(e.out, EulerM(e))>> >>)
    [] e.op = "rotation" -> Clauses(<< <<"the result is not a proper rotation", RotOK(e.out)>>, <<"the rotation does not fix its axis", Fixes(e.out, e.axis)>>,
                                       <<"the rotation does not turn by the angle", Is(e.out, AxisAngle(e.a, e.unit, e.axis))>> >>)
    [] e.op = "skew" -> IF e.out.t # "pair" THEN "the screw operation fails"
                        ELSE Clauses(<< <<"the rotation part of the screw is not the n-fold rotation", Is(e.out.q, AxisAngle(Rat(360, e.n), "deg", e.axis))>>,
                                <<"the translation part of the screw is not p/n of the axis", IsArr(e.out.c) /\
                                  VClose(e.out.c.v, VScale(Rat(IF e.p > e.n THEN e.p % e.n ELSE e.p, e.n), e.axis), NMul(Tol, NMax(1, VMaxAbs(e.axis))))>> >>)
    [] e.op = "refused" -> IF Raises(e.out, {"ValueError"}) THEN "ok" ELSE "wrong input of the Euler helper does not raise ValueError"
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
