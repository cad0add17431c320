--------------------------------- MODULE T_C03 ----------------------------------
(* Conformance for C03.  The abstract state is the last comparison made, so that *)
(* its reverse can be required to agree.                                         *)
EXTENDS Lattices, Conform
VARIABLES k, l, st
Start(c) == FALSE
Agree(o, ans) == CASE ans = "yes" -> IsT(o) [] ans = "no" -> IsF(o) [] OTHER -> IsBool(o)
Flip(o) == IF IsBool(o) THEN [o EXCEPT !.v = ~o.v] ELSE o
Verdict(s, e) ==
  CASE e.op = "eq" ->
         LET ans == IF Len(e.a) # Len(e.b) THEN "no" ELSE SameSet(e.a, e.b)
         IN Clauses(<< <<"equality answers a bool", IsBool(e.out) /\ IsBool(e.ne)>>,
                       <<"equality differs from having the same points", Agree(e.out, ans)>>,
                       <<"inequality is not the opposite of equality", Flip(e.ne) = e.out>>,
                       <<"equality is not symmetric", e.rev => s = e.out.v>> >>)
    [] e.op = "eq_other" -> IF IsF(e.out) THEN "ok" ELSE "a lattice equals something that is not a lattice"
    [] e.op = "new" ->
         IF e.wellformed = FALSE
         THEN (IF Raises(e.out, {"ValueError"}) THEN "ok" ELSE "a malformed base is not rejected with ValueError")
         ELSE LET b == Basis(e.e)
              IN CASE b = "no" -> IF Raises(e.out, {"ValueError"}) THEN "ok" ELSE "a singular base is not rejected with ValueError"
                   [] b = "yes" -> Clauses(<< <<"a nonsingular base is rejected", ~IsExc(e.out)>>,
                                              <<"the base is not reproduced", IsArr(e.out) /\ IsMat(e.out.v, Len(e.e), Len(e.e)) /\ MEq(e.out.v, e.e)>>,
                                              <<"the dimension is wrong", IsNum(e.dim) /\ e.dim.v = Len(e.e)>> >>)
                   [] OTHER -> "ok"
    [] OTHER -> "crash"
After(s, e) == IF e.op = "eq" /\ IsBool(e.out) THEN e.out.v ELSE FALSE
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
