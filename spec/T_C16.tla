--------------------------------- MODULE T_C16 ----------------------------------
(* Conformance for C16.  The first event is a whole enumeration; it must be the  *)
(* ball, each vector once, and it fixes the order.  Every later event must be    *)
(* the part of it that starts at x0, restricted to its own radius.               *)
EXTENDS Integers, FiniteSets, SequencesExt, Functions, Conform
VARIABLES k, l, st
Start(c) == "start"
Ref == Cases[k].ev[1].v
RECURSIVE Sq(_, _)
Sq(v, i) == IF i = 0 THEN 0 ELSE v[i] * v[i] + Sq(v, i - 1)
N2(v) == Sq(v, Len(v))
(* number of integer vectors of dimension n with squared length at most r        *)
Root(r) == CHOOSE i \in 0..r : i * i <= r /\ (i + 1) * (i + 1) > r
RECURSIVE Count(_, _)
Count(n, r) == IF n = 0 THEN 1 ELSE LET m == Root(r)
                                        T == [x \in 0..m |-> Count(n - 1, r - x * x)]
                                    IN FoldFunctionOnSet(+, 0, T, 0..m) * 2 - T[0]
Range1(s) == { s[i] : i \in 1..Len(s) }
Full(e) ==
  Clauses(<< <<"a vector outside the length is enumerated", \A i \in 1..Len(e.v) : Len(e.v[i]) = e.n /\ N2(e.v[i]) <= e.r2>>,
             <<"a vector is enumerated twice", Cardinality(Range1(e.v)) = Len(e.v)>>,
             <<"a vector inside the length is left out", Len(e.v) = Count(e.n, e.r2)>> >>)
(* the expected remainder                                                        *)
Rest(x0, r2) == LET p == CHOOSE i \in 1..Len(Ref) : Ref[i] = x0
                IN SelectSeq(SubSeq(Ref, p, Len(Ref)), LAMBDA v : N2(v) <= r2)
Resume(e) ==
  LET W == Rest(e.x0, e.r2) IN
  Clauses(<< <<"resuming fails", e.out.t = "list">>,
             <<"resuming does not yield the not yet enumerated vectors in the same order", IF e.done THEN e.v = W ELSE Len(e.v) <= Len(W) /\ e.v = SubSeq(W, 1, Len(e.v))>> >>)
Verdict(s, e) ==
  CASE e.op = "full" -> Full(e)
    [] e.op = "resume" -> Resume(e)
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
