------------------------------ MODULE MC_C28_sphere ------------------------------
(* Stereographic projection on exact directions: Pythagorean p and z have an     *)
(* integer length.  Checked: the length is R tan(theta/2), folding p does not    *)
(* matter, scaling p does not matter, scaling z scales the image, and everything *)
(* lands in the disc of radius R.                                                *)
EXTENDS Draw, Json
CONSTANTS B
VARIABLES p, z
V == { <<x, y, w>> : x \in -B..B, y \in -B..B, w \in -B..B }
Whole(v) == \E k \in 1..(2 * B) : k * k = v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Init == p \in { v \in V : Whole(v) } /\ z \in { v \in V : Whole(v) }
Next == UNCHANGED <<p, z>>
W == Proj(p, z)
C == NDiv(Along(p, z), Len1(p))                    \* cos(theta) after folding
E == NTen(20)
Tan == NClose(Norm2(W), NMul(Norm2(z), NDiv(NSub(1, C), NAdd(1, C))), E)
Mirror == VSub(p, VScale(NDiv(NMul(2, Dot(p, z)), Norm2(z)), z))
Fold == VClose(Proj(Mirror, z), W, E)
Scale == VClose(Proj(VScale(3, p), z), W, E) /\ VClose(Proj(p, VScale(2, z)), VScale(2, W), E)
Disc == NLe(Norm2(W), NAdd(Norm2(z), E))
Emit == PrintT("CASE " \o ToJson([p |-> p, z |-> z]))
=================================================================================
