---------------------------------- MODULE Draw -----------------------------------
(* Unit cells and stereographic projection (C28).                                *)
EXTENDS LinAlg, FiniteSets
(* corners of the cell of the basis vectors Vs (a sequence of n vectors) at o    *)
Picks(n) == [1..n -> {0, 1}]
RECURSIVE AddUp(_, _, _, _)
AddUp(o, Vs, c, i) == IF i > Len(Vs) THEN o ELSE AddUp(IF c[i] = 1 THEN VAdd(o, Vs[i]) ELSE o, Vs, c, i + 1)
Corner(o, Vs, c) == AddUp(o, Vs, c, 1)
Apart1(c, d) == Cardinality({ i \in DOMAIN c : c[i] # d[i] }) = 1
Edges(n) == { {c, d} : c \in Picks(n), d \in Picks(n) } \ { {c} : c \in Picks(n) }
CellEdges(n) == { x \in Edges(n) : \E c, d \in x : c # d /\ Apart1(c, d) }
(* the axes of the projection plane of the zone axis z, not normalised           *)
Axis1(z) == IF NEq(z[1], 0) /\ NEq(z[2], 0) THEN <<1, 0, 0>> ELSE <<z[2], NNeg(z[1]), 0>>
Axis2(z) == IF NEq(z[1], 0) /\ NEq(z[2], 0) THEN <<0, 1, 0>> ELSE Cross(z, Axis1(z))
(* R tan(theta/2) = R |p_perp| / (|p| + |p_z|) with p folded into the upper half *)
Len1(v) == NSqrt(Norm2(v))
Along(p, z) == NDiv(NAbs(Dot(p, z)), Len1(z))
Proj(p, z) == LET r == Len1(z)
                  h == NAdd(Len1(p), Along(p, z))
                  x(a) == NDiv(NMul(r, NDiv(Dot(p, a), Len1(a))), h)
              IN << x(Axis1(z)), x(Axis2(z)) >>
=================================================================================
