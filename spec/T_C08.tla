--------------------------------- MODULE T_C08 ----------------------------------
(* Conformance for C08: construction, identity and description.  st is the last  *)
(* lattice built in the case, as <<dim, id>>, or <<>>.                           *)
EXTENDS Bravais, Conform
VARIABLES k, l, st
Start(c) == <<>>
Expect(e) == IF e.dim \notin {2, 3} THEN "no"
             ELSE IF e.id \notin 1..NTypes(e.dim) THEN "no"
             ELSE ValidParams(e.dim, e.id, e.p)
Close6(x, y) == NLe(NAbs(NSub(x, y)), NMul(NTen(5), NAbs(y)))
Described(e) ==
  LET nm == ParamNames(e.dim, e.id)
  IN Clauses(<< <<"the description does not name the type", e.desc.type = TypeName(e.dim, e.id) /\ e.desc.dim = e.dim>>,
                <<"the description does not show exactly the parameters of the type", e.desc.names = nm>>,
                <<"the description shows a parameter under another name", \A i \in 1..Len(nm) : Close6(e.desc.vals[i], e.p[i])>> >>)
Built(e) == Clauses(<< <<"the type number is not reported unchanged", IsNum(e.gotid) /\ e.gotid.v = e.id /\ IsNum(e.gotid2) /\ e.gotid2.v = e.id>>,
                       <<"the dimension is wrong", IsNum(e.gotdim) /\ e.gotdim.v = e.dim>>,
                       <<"the parameters are not reported unchanged", IsArr(e.gotp) /\ e.gotp.shape = <<Len(e.p)>> /\ VEq(e.gotp.v, e.p)>>,
                       <<"the parameters are not reported unchanged", IsArr(e.gotp2) /\ e.gotp2.shape = <<Len(e.p)>> /\ VEq(e.gotp2.v, e.p)>> >>)
Verdict(s, e) ==
  CASE e.op = "new" ->
         LET x == Expect(e)
         IN CASE x = "no" -> IF Raises(e.out, {"ValueError"}) THEN "ok" ELSE "invalid input is not rejected with ValueError"
              [] x = "yes" -> IF IsExc(e.out) THEN "valid input is rejected"
                              ELSE LET b == Built(e) IN IF b = "ok" THEN Described(e) ELSE b
              [] OTHER -> "ok"
    [] e.op = "malformed" -> IF Raises(e.out, {"ValueError"}) THEN "ok" ELSE "malformed input is not rejected with ValueError"
    [] OTHER -> "crash"
After(s, e) == IF e.op = "new" /\ ~IsExc(e.out) THEN <<e.dim, e.id>> ELSE <<>>
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
