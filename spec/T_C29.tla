--------------------------------- MODULE T_C29 ----------------------------------
(* Conformance for C29: the report of a search, read line by line.  st holds the  *)
(* solutions returned and the position of the reader.                             *)
EXTENDS Report, Conform
VARIABLES k, l, st
None == [how |-> "", dim |-> 0, dist |-> "", sols |-> <<>>, at |-> Begin]
Start(c) == None
IsSol(s, n, how) == IsArr(s.cor) /\ IsMat(s.cor.v, n, n) /\ IsArr(s.u) /\ IsMat(s.u.v, n, n) /\ IsArr(s.lams) /\ IsVec(s.lams.v, n) /\ IsNum(s.d)
                    /\ (how # "hnf" \/ (IsArr(s.h) /\ IsMat(s.h.v, n, n)))
Plain(s, how) == [cor |-> s.cor.v, u |-> s.u.v, h |-> IF how = "hnf" THEN s.h.v ELSE <<>>, lams |-> s.lams.v, d |-> s.d.v]
Verdict(s, e) ==
  CASE e.op = "search" -> Clauses(<<
         <<"the search fails", ~IsExc(e.out) /\ ~IsExc(e.quiet)>>,
         <<"a search without display prints", e.silent = "">>,
         <<"a solution has no proper fields", \A i \in 1..Len(e.sols) : IsSol(e.sols[i], e.dim, e.how)>>,
         <<"displaying changes the solutions", IsArr(e.ds) /\ IsArr(e.dq) /\ VClose(e.ds.v, e.dq.v, NTen(9))>> >>)
    [] e.op = "lattices" -> Clauses(<<
         <<"the parent lattice is not described", Len(e.shown) = 2 /\ e.shown[1] = e.desc[1]>>,
         <<"the product lattice is not described", Len(e.shown) = 2 /\ e.shown[2] = e.desc[2]>> >>)
    [] e.op = "line" -> Clauses(<<
         <<"the report shows more solutions than were returned", s.at.i <= Len(s.sols)>>,
         <<"a line of the report is missing or out of place", e.kind = Parts(s.how)[s.at.part]>>,
         <<"the report names another distance", e.kind # "name" \/ e.name = DistName(s.dist)>>,
         <<"the report does not show what was returned", LineOk(s.at, s.how, s.dim, s.sols[s.at.i], e)>> >>)
    [] e.op = "end" -> Clauses(<< <<"a solution is missing from the report", s.at = [i |-> Len(s.sols) + 1, part |-> 1, row |-> 1]>> >>)
    [] e.op = "report" -> "ok"
    [] OTHER -> "crash"
After(s, e) ==
  CASE e.op = "search" -> [how |-> e.how, dim |-> e.dim, dist |-> e.dist, sols |-> [i \in 1..Len(e.sols) |-> Plain(e.sols[i], e.how)], at |-> Begin]
    [] e.op = "report" -> [s EXCEPT !.at = Begin]
    [] e.op = "line" -> [s EXCEPT !.at = Advance(@, s.how, s.dim)]
    [] OTHER -> s
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
