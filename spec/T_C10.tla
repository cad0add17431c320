--------------------------------- MODULE T_C10 ----------------------------------
(* Conformance for C10: e.host and e.cand are the elements of the two groups as  *)
(* listed; the answer may depend on the sets of elements only.                   *)
EXTENDS LinAlg, Conform
VARIABLES k, l, st
Start(c) == "start"
Same(a, b) == Rows(a) = Rows(b) /\ MClose(a, b, NTen(9))
Apart(a, b) == Rows(a) # Rows(b) \/ ~MClose(a, b, NTen(3))
Included(H, G) == \A i \in 1..Len(H) : \E j \in 1..Len(G) : Same(H[i], G[j])
Missing(H, G) == \E i \in 1..Len(H) : \A j \in 1..Len(G) : Apart(H[i], G[j])
Verdict(s, e) ==
  CASE e.op = "hassubgroup" ->
         IF ~IsBool(e.out) THEN "the answer is not a boolean"
         ELSE IF e.out.v = FALSE /\ Included(e.cand, e.host) THEN "a subgroup is rejected"
         ELSE IF e.out.v = TRUE /\ Missing(e.cand, e.host) THEN "a group with an element outside is accepted"
         ELSE "ok"
    [] e.op = "not a group" -> IF Raises(e.out, {"TypeError"}) THEN "ok" ELSE "something that is not a group does not raise TypeError"
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
