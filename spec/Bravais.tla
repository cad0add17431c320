--------------------------------- MODULE Bravais ---------------------------------
(* The 14 + 5 Bravais types: parameters, conventional cell, orientation, centring*)
(* and index conversion (C07, C08, C09).                                         *)
EXTENDS LinAlg, Trig

NTypes(dim) == IF dim = 3 THEN 14 ELSE IF dim = 2 THEN 5 ELSE 0
NParams(dim, id) == IF dim = 3 THEN <<1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6>>[id] ELSE <<1, 2, 2, 1, 3>>[id]
(* names of the parameters of each type, in order                                *)
ParamNames(dim, id) ==
  IF dim = 2 THEN << <<"a">>, <<"a", "b">>, <<"a", "b">>, <<"a">>, <<"a", "b", "gamma">> >>[id]
  ELSE CASE id \in 1..3 -> <<"a">>
         [] id \in {4, 6, 7} -> <<"a", "c">>
         [] id = 5 -> <<"a", "alpha">>
         [] id \in 8..11 -> <<"a", "b", "c">>
         [] id \in 12..13 -> <<"a", "b", "c", "beta">>
         [] id = 14 -> <<"a", "b", "c", "alpha", "beta", "gamma">>
TypeName(dim, id) ==
  IF dim = 2 THEN <<"Square P", "Rectangular P", "Rectangular I (centered rectangular)", "Hexagonal P", "Oblique P">>[id]
  ELSE <<"Cubic P", "Cubic F (face centered cubic)", "Cubic I (body centered cubic)", "Hexagonal P", "Rhombohedral P", "Tetragonal P",
         "Tetragonal I (body centered tetragonal)", "Orthorhombic P", "Orthorhombic C (base centered orthorhombic)",
         "Orthorhombic F (face centered orthorhombic)", "Orthorhombic I (body centered orthorhombic)", "Monoclinic P",
         "Monoclinic C (base centered monoclinic)", "Triclinic P">>[id]
(* cell <<a, b, c, alpha, beta, gamma>> (3D) or <<a, b, gamma>> (2D)             *)
Cell(dim, id, p) ==
  IF dim = 2 THEN CASE id = 1 -> <<p[1], p[1], 90>> [] id \in {2, 3} -> <<p[1], p[2], 90>> [] id = 4 -> <<p[1], p[1], 60>> [] id = 5 -> p
  ELSE CASE id \in 1..3 -> <<p[1], p[1], p[1], 90, 90, 90>>
         [] id = 4 -> <<p[1], p[1], p[2], 90, 90, 60>>
         [] id = 5 -> <<p[1], p[1], p[1], p[2], p[2], p[2]>>
         [] id \in {6, 7} -> <<p[1], p[1], p[2], 90, 90, 90>>
         [] id \in 8..11 -> <<p[1], p[2], p[3], 90, 90, 90>>
         [] id \in 12..13 -> <<p[1], p[2], p[3], 90, p[4], 90>>
         [] id = 14 -> p
Metric(dim, id, p) ==
  LET q == Cell(dim, id, p)
  IN IF dim = 2 THEN LET g == NMul(NMul(q[1], q[2]), Cos(q[3])) IN << <<NSq(q[1]), g>>, <<g, NSq(q[2])>> >>
     ELSE LET ab == NMul(NMul(q[1], q[2]), Cos(q[6]))
              ac == NMul(NMul(q[1], q[3]), Cos(q[5]))
              bc == NMul(NMul(q[2], q[3]), Cos(q[4]))
          IN << <<NSq(q[1]), ab, ac>>, <<ab, NSq(q[2]), bc>>, <<ac, bc, NSq(q[3])>> >>
H == "1/2"
(* centring points of the conventional cell besides the origin                   *)
Centring(dim, id) ==
  IF dim = 2 THEN (IF id = 3 THEN << <<H, H>> >> ELSE <<>>)
  ELSE CASE id \in {2, 10} -> << <<0, H, H>>, <<H, 0, H>>, <<H, H, 0>> >>
         [] id \in {3, 7, 11} -> << <<H, H, H>> >>
         [] id \in {9, 13} -> << <<H, H, 0>> >>
         [] OTHER -> <<>>
PointsPerCell(dim, id) == 1 + Len(Centring(dim, id))

(* determinant of the metric relative to the lengths decides whether the angles  *)
(* describe a cell                                                               *)
AngleDet(dim, id, p) ==
  LET q == Cell(dim, id, p)
  IN IF dim = 2 THEN NSub(1, NSq(Cos(q[3])))
     ELSE LET a == Cos(q[4])
              b == Cos(q[5])
              c == Cos(q[6])
          IN NSub(NAdd(1, NMul(2, NMul(a, NMul(b, c)))), NAdd(NSq(a), NAdd(NSq(b), NSq(c))))
Angles(dim, id, p) == LET q == Cell(dim, id, p) IN IF dim = 2 THEN <<q[3]>> ELSE <<q[4], q[5], q[6]>>
(* "yes", "no", or "edge" (an almost flat cell, or an angle beyond 180: not      *)
(* judged)                                                                       *)
ValidParams(dim, id, p) ==
  IF Len(p) # NParams(dim, id) THEN "no"
  ELSE IF \E i \in 1..Len(p) : NLe(p[i], 0) THEN "no"
  ELSE LET d == AngleDet(dim, id, p)
           an == Angles(dim, id, p)
       IN IF \E i \in 1..Len(an) : NLt(180, an[i]) THEN "edge"
          ELSE IF NLe(d, NNeg(NTen(6))) THEN "no"
          ELSE IF NLe(NTen(4), d) THEN "yes" ELSE "edge"

(* the standard orientation of the conventional basis K                          *)
Zero(x, scale) == NLe(NAbs(x), NMul(NTen(9), scale))
Oriented(dim, id, Kb) ==
  LET s == MaxAbs(Kb)
      z(i, j) == Zero(Kb[i][j], s)
  IN IF dim = 2 THEN z(2, 1) /\ NLt(0, Kb[1][1]) /\ NLt(0, Kb[2][2])
     ELSE CASE id = 5 -> /\ \A i \in 1..3 : NClose(Kb[i][i], Kb[1][1], NMul(NTen(9), s))
                         /\ \A i, j \in 1..3 : i # j => NClose(Kb[i][j], Kb[1][2], NMul(NTen(9), s))
            [] id \in 12..13 -> z(2, 1) /\ z(3, 1) /\ z(1, 2) /\ z(3, 2) /\ z(2, 3) /\ NLt(0, Kb[1][1]) /\ NLt(0, Kb[2][2]) /\ NLt(0, Kb[3][3])
            [] OTHER -> z(2, 1) /\ z(3, 1) /\ z(3, 2) /\ NLt(0, Kb[1][1]) /\ NLt(0, Kb[2][2]) /\ NLt(0, Kb[3][3])
(* the lattice of the primitive basis E is the conventional lattice with its     *)
(* centring points: all of them lie in it, and the index is right                *)
Tol == NTen(9)
Spans(dim, id, E, Kb) ==
  LET B == MMul(MInv(E), Kb)           \* conventional vectors in primitive coordinates
      ce == Centring(dim, id)
  IN /\ MNearInt(B, Tol)
     /\ \A i \in 1..Len(ce) : MNearInt(<<MVec(B, ce[i])>>, Tol)
     /\ NClose(NAbs(Det(B)), PointsPerCell(dim, id), Tol)
=================================================================================
