--------------------------------- MODULE MC_C14 ---------------------------------
(* Turning a body about the fixed axes by quarter turns: after any word of turns *)
(* it stands in one of the 24 orientations of the cube, as a proper rotation,    *)
(* and the turns applied in the given order multiply from the left.  Words of    *)
(* three turns are emitted with the orientation reached.                         *)
EXTENDS Groups, Json
CONSTANTS Depth
VARIABLES r, word
Q(ax, t) == LET c == IF t = 0 THEN 1 ELSE IF t = 2 THEN -1 ELSE 0
                s == IF t = 1 THEN 1 ELSE IF t = 3 THEN -1 ELSE 0
            IN CASE ax = "X" -> << <<1, 0, 0>>, <<0, c, -s>>, <<0, s, c>> >>
                 [] ax = "Y" -> << <<c, 0, s>>, <<0, 1, 0>>, <<-s, 0, c>> >>
                 [] ax = "Z" -> << <<c, -s, 0>>, <<s, c, 0>>, <<0, 0, 1>> >>
Init == r = Id(3) /\ word = <<>>
Next == Len(word) < Depth /\ \E ax \in {"X", "Y", "Z"}, t \in 0..3 : r' = MMul(Q(ax, t), r) /\ word' = Append(word, <<ax, t>>)
Cube == TLCEval(CubeRot)
Proper == r \in Cube
(* the last turn leaves its own axis fixed relative to what it was before        *)
Undo == Len(word) > 0 => LET w == word[Len(word)] IN MMul(Q(w[1], (4 - w[2]) % 4), MMul(Q(w[1], w[2]), Id(3))) = Id(3)
Emit == Len(word) = 3 => PrintT("CASE " \o ToJson([w |-> [i \in 1..3 |-> <<word[i][1], ToString(word[i][2])>>], r |-> r]))
=================================================================================
