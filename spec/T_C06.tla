--------------------------------- MODULE T_C06 ----------------------------------
(* Conformance for C06: a history of queries and spoilings of outside arrays on  *)
(* a real object.  The abstract object is a value: st only counts the calls; an  *)
(* answer must be the one a fresh object gave to the same query (e.fresh).       *)
EXTENDS LinAlg, Conform
VARIABLES k, l, st
Start(c) == 0
Tol == NTen(9)
RECURSIVE SameNest(_, _, _)
SameNest(a, b, d) == IF d = 0 THEN NLe(NAbs(NSub(a, b)), NMul(Tol, NMax(1, NAbs(b))))
                     ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameNest(a[i], b[i], d - 1)
RECURSIVE SameOut(_, _)
SameOut(a, b) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "arr" -> a.shape = b.shape /\ SameNest(a.v, b.v, Len(a.shape))
         [] a.t = "list" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : SameOut(a.v[i], b.v[i])
         [] a.t = "num" -> SameNest(a.v, b.v, 0)
         [] OTHER -> a.v = b.v
Verdict(s, e) ==
  CASE e.op = "query" -> IF SameOut(e.out, e.fresh) THEN "ok" ELSE "an answer depends on the history of the object or on an outside array"
    [] e.op = "spoil" -> "ok"
    [] OTHER -> "crash"
After(s, e) == s + 1
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
