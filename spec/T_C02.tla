--------------------------------- MODULE T_C02 ---------------------------------
(* Conformance for C02.  st is the normal form the case's lattice has been seen  *)
(* to have ("none" before the first decomposition): all matrices of a case span  *)
(* the same lattice, so it never changes.                                        *)
EXTENDS HNF, Conform
VARIABLES k, l, st
Start(c) == <<>>
IsM(o, n) == IsArr(o) /\ IsIntMat(o.v, n)
Verdict(s, e) ==
  CASE e.op = "hnfd" ->
         LET n == Len(e.m) IN
         Clauses(<< <<"a pair of integer matrices is returned", e.out.t = "list" /\ Len(e.out.v) = 2 /\ IsM(e.out.v[1], n) /\ IsM(e.out.v[2], n)>>,
                    <<"H is not in Hermite normal form", IsHNF(e.out.v[1].v, n)>>,
                    <<"L is not unimodular", NEq(NAbs(Det(e.out.v[2].v)), 1)>>,
                    <<"H L differs from the input", IsDecomposition(e.m, e.out.v[1].v, e.out.v[2].v)>>,
                    <<"normal form depends on the basis of the lattice", s = <<>> \/ s = e.out.v[1].v>>,
                    <<"input modified", MEq(e.after, e.m)>> >>)
    [] e.op = "hnfd_only" ->
         LET n == Len(e.m) IN
         Clauses(<< <<"an integer matrix is returned", IsM(e.out, n)>>,
                    <<"not the Hermite normal form of the input", IsNormalFormOf(e.out.v, e.m, n)>>,
                    <<"normal form depends on the basis of the lattice", s = <<>> \/ s = e.out.v>>,
                    <<"input modified", MEq(e.after, e.m)>> >>)
    [] OTHER -> "crash"
After(s, e) == IF e.op = "hnfd" THEN e.out.v[1].v ELSE e.out.v
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
