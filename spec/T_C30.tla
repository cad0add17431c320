--------------------------------- MODULE T_C30 ----------------------------------
(* Conformance for C30: minima the code reports for the forms of pairs of bases.  *)
(* st counts the answers, all starts of one pair must agree with the same value.  *)
EXTENDS Quartic, Conform
VARIABLES k, l, st
Start(c) == 0
Verdict(s, e) ==
  CASE e.op = "min" ->
         LET w == Minimum(MTrunc(e.a, 60), MTrunc(e.m, 60))
         IN IF \E i \in 1..Len(e.out) : ~IsNum(e.out[i]) THEN "the minimisation fails"
            ELSE Clauses(<<
                       <<"a smaller value of the quartic form exists", \A i \in 1..Len(e.out) : NLe(e.out[i].v, NMul(w, Rat(102, 100)))>>,
                       <<"the value is below the minimum of the quartic form", \A i \in 1..Len(e.out) : NLe(NMul(w, Rat(98, 100)), e.out[i].v)>> >>)
    [] OTHER -> "crash"
After(s, e) == s + 1
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
