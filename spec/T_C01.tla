--------------------------------- MODULE T_C01 ---------------------------------
(* Conformance for C01: every recorded enumeration equals the declarative set.   *)
EXTENDS HNF, Conform
VARIABLES k, l, st
Start(c) == "start"
MatsOK(o, n) == /\ IsArr(o) /\ Len(o.shape) = 3 /\ o.shape[2] = n /\ o.shape[3] = n
                /\ \A i \in 1..Len(o.v) : IsIntMat(o.v[i], n)
Listing(o, n, want) ==
  Clauses(<< <<"result is a list of integer matrices", MatsOK(o, n)>>,
             <<"a form is listed twice", Cardinality({o.v[i] : i \in 1..Len(o.v)}) = Len(o.v)>>,
             <<"a form is missing", want \subseteq {o.v[i] : i \in 1..Len(o.v)}>>,
             <<"something that is not such a form is listed", {o.v[i] : i \in 1..Len(o.v)} \subseteq want>> >>)
Verdict(s, e) ==
  CASE e.op = "hnf_from_det" ->
         IF e.n < 0 THEN (IF Raises(e.out, {"ValueError"}) THEN "ok" ELSE "negative determinant not rejected")
         ELSE Listing(e.out, e.dim, HNFsOfDet(e.n, e.dim))
    [] e.op = "hnf_from_diag" -> Listing(e.out, Len(e.diag), HNFsOfDiag(e.diag))
    [] e.op = "divisors" ->
         Clauses(<< <<"result is a list of integers", IsArr(e.out) /\ Len(e.out.shape) = 1 /\ \A i \in 1..Len(e.out.v) : NIs(e.out.v[i]) /\ NIsInt(e.out.v[i])>>,
                    <<"not the positive divisors", {e.out.v[i] : i \in 1..Len(e.out.v)} = Divs(e.n)>>,
                    <<"not in increasing order", \A i \in 1..(Len(e.out.v) - 1) : e.out.v[i] < e.out.v[i + 1]>> >>)
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
