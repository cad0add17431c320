------------------------------ MODULE MC_C21_tree -------------------------------
(* The pruned tree of SL(3, Z): words of transvections that merely undo the last *)
(* letter, that are another spelling of a commutator, or that are the other      *)
(* order of a commuting pair are not followed.  The elements reached by pruned   *)
(* words of length at most Depth are all elements reached by any words.          *)
EXTENDS Shears
CONSTANTS Depth
VARIABLES word, elem
Letters == { x \in (1..3) \X (1..3) \X {1, -1} : x[1] # x[2] }
Tm(t) == Mat(3, 3, LAMBDA i, j : IF i = j THEN 1 ELSE IF i = t[1] /\ j = t[2] THEN t[3] ELSE 0)
Before(s, t) == s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2])
Undo(c, p) == c[1] = p[1] /\ c[2] = p[2] /\ c[3] = 0 - p[3]
Other(c, p) == Before(p, c) /\ c[2] # p[1] /\ c[1] # p[2]
Uncle(c, p, g) == c[1] = g[1] /\ g[2] = p[1] /\ p[2] = c[2] /\ c[3] * p[3] * g[3] = -1
Allowed(w, c) == LET n == Len(w) IN
                 /\ n >= 1 => ~Undo(c, w[n]) /\ ~Other(c, w[n])
                 /\ n >= 2 => ~Uncle(c, w[n], w[n - 1])
Init == word = <<>> /\ elem = Id(3)
Next == /\ Len(word) < Depth
        /\ \E c \in Letters : Allowed(word, c) /\ word' = Append(word, c) /\ elem' = MMul(elem, Tm(c))
(* the rules only drop words whose element an earlier level or another word has  *)
RECURSIVE Pruned(_, _)
Pruned(W, k) == IF k = 0 THEN W ELSE
  LET New == UNION { { <<Append(x[1], c), MMul(x[2], Tm(c))>> : c \in { c \in Letters : Allowed(x[1], c) } } : x \in W }
  IN W \cup Pruned(New, k - 1)
Reached == { x[2] : x \in Pruned({ <<<<>>, Id(3)>> }, Depth) }
Complete == word = <<>> => Reached = BallAround({Id(3)}, Transvections(3), Depth)
InBall == NEq(Det(elem), 1)
=================================================================================
