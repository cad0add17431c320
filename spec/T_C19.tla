--------------------------------- MODULE T_C19 ----------------------------------
(* Conformance for C19.  Every event gives the whole list, the group and what    *)
(* the code kept, directly or piece by piece.                                    *)
EXTENDS HNFOrbits, Conform
VARIABLES k, l, st
Start(c) == "start"
Set(s) == { s[i] : i \in 1..Len(s) }
Verdict(s, e) ==
  CASE e.op = "reduce" ->
         LET n == Len(e.lg[1])
             S == Set(e.hnfs)
             R == Set(e.kept)
             lg == Set(e.lg)
         IN Clauses(<< <<"the reduction fails", e.out.t = "list">>,
                       <<"something else than integer matrices is returned", \A i \in 1..Len(e.kept) : IsMat(e.kept[i], n, n) /\ MIsInt(e.kept[i])>>,
                       <<"a form that was not given is returned", R \subseteq S>>,
                       <<"a form is returned twice", Cardinality(R) = Len(e.kept)>>,
                       <<"an orbit is lost", \A h \in S : \E r \in R : Related(h, r, lg)>>,
                       <<"two forms of the same orbit are kept", \A r, q \in R : r # q => ~Related(r, q, lg)>>,
                       <<"the input is modified", e.same>> >>)
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
