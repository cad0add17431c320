--------------------------------- MODULE T_C12 ----------------------------------
(* Conformance for C12.  st = [objs, ev]: for every object made, the number of   *)
(* the event that set its stretch (0: none) and its group (0: the cubic          *)
(* default), as in MartObj; ev counts the events.                                *)
EXTENDS LinAlg, Trig, Conform
VARIABLES k, l, st
Start(c) == [objs |-> << <<0, 0>> >>, ev |-> 1]
E(i) == Cases[k].ev[i]
(* the stretch asked for by a setU event                                         *)
Asked(e) == CASE e.n = 1 -> << <<e.x[1], 0, 0>>, <<0, e.x[1], 0>>, <<0, 0, e.x[1]>> >>
              [] e.n = 2 -> << <<e.x[1], 0, 0>>, <<0, e.x[1], 0>>, <<0, 0, e.x[2]>> >>
              [] e.n = 3 -> << <<e.x[1], e.x[2], 0>>, <<e.x[2], e.x[1], 0>>, <<0, 0, e.x[3]>> >>
              [] e.n = 4 -> << <<e.x[1], e.x[2], 0>>, <<e.x[2], e.x[3], 0>>, <<0, 0, e.x[4]>> >>
              [] OTHER -> e.x
SPD(A) == Symmetric(A) /\ PosDef(A)
(* clearly positive definite / clearly not                                       *)
Margin == NTen(6)
ClearlySPD(A) == Symmetric(A) /\ PosDef(MSub(A, MScale(Margin, Id(3))))
ClearlyNot(A) == ~MClose(A, Transp(A), NTen(5)) \/ ~PosDef(MAdd(A, MScale(Margin, Id(3))))
(* the groups of the Bravais types                                               *)
Perms3 == { p \in [1..3 -> 1..3] : \A i, j \in 1..3 : p[i] = p[j] => i = j }
Cube == TLCEval({ q \in { Mat(3, 3, LAMBDA i, j : IF p[i] = j THEN s[i] ELSE 0) : p \in Perms3, s \in [1..3 -> {1, -1}] } : Det(q) = 1 })
Diagonal(q) == q[1][1] # 0 /\ q[2][2] # 0
Fix111(q) == LET v == MVec(q, <<1, 1, 1>>) IN v[1] = v[2] /\ v[2] = v[3]
Hex == VecOf(12, LAMBDA i : LET a == Cos(60 * (i % 6))  b == Sin(60 * (i % 6)) IN
                 IF i <= 6 THEN << <<a, NNeg(b), 0>>, <<b, a, 0>>, <<0, 0, 1>> >> ELSE << <<a, b, 0>>, <<b, NNeg(a), 0>>, <<0, 0, -1>> >>)
TypeGroup(n) == CASE n \in 1..3 -> Cube
                  [] n = 5 -> { q \in Cube : Fix111(q) }
                  [] n \in 6..7 -> { q \in Cube : q[3][3] # 0 }
                  [] n \in 8..11 -> { q \in Cube : Diagonal(q) }
                  [] n \in 12..13 -> { q \in Cube : Diagonal(q) /\ q[2][2] = 1 }
                  [] n = 14 -> { Id(3) }
Same(a, b) == MClose(a, b, NTen(9))
IsHex(L) == Len(L) = 12 /\ \A i \in 1..12 : \E j \in 1..12 : Same(L[j], Hex[i])
IsType(L, n) == IF n = 4 THEN IsHex(L)
                ELSE LET T == TypeGroup(n) IN Len(L) = Cardinality(T) /\ \A t \in T : \E j \in 1..Len(L) : Same(L[j], t)
SameSet(L, M) == Len(L) = Len(M) /\ \A i \in 1..Len(L) : (\E j \in 1..Len(M) : Same(L[i], M[j])) /\ (\E j \in 1..Len(M) : Same(M[i], L[j]))
Mats(o) == VecOf(Len(o.v), LAMBDA i : o.v[i].v)
Look(s, e) ==
  LET o == s.objs[e.obj]
      gOK == e.out.t = "list" /\ \A i \in 1..Len(e.out.v) : IsArr(e.out.v[i]) /\ e.out.v[i].shape = <<3, 3>>
  IN IF ~gOK THEN "the group is not a list of matrices"
     ELSE Clauses(<< <<"the stretch is not the one set last on this object's history", IF o[1] = 0 THEN Raises(e.u, {"AttributeError"}) ELSE IsArr(e.u) /\ e.u.shape = <<3, 3>> /\ MEq(e.u.v, Asked(E(o[1])))>>,
                     <<"the group is not the one set last on this object's history", IF o[2] = 0 THEN IsType(Mats(e.out), 1)
                        ELSE IF E(o[2]).n = 1 THEN IsType(Mats(e.out), E(o[2]).x) ELSE SameSet(Mats(e.out), E(o[2]).x)>> >>)
Made(o) == o.t = "str" /\ o.v = "new"
Verdict(s, e) ==
  CASE e.op = "look" -> Look(s, e)
    [] e.op = "setU" -> IF e.n = -1 THEN (IF Raises(e.out, {"TypeError"}) THEN "ok" ELSE "an invalid stretch does not raise TypeError")
                        ELSE IF ClearlyNot(Asked(e)) THEN (IF Raises(e.out, {"TypeError"}) THEN "ok" ELSE "a stretch that is not symmetric positive definite does not raise TypeError")
                        ELSE IF ClearlySPD(Asked(e)) THEN (IF Made(e.out) THEN "ok" ELSE "a valid stretch does not give a new object")
                        ELSE IF Made(e.out) \/ Raises(e.out, {"TypeError"}) THEN "ok" ELSE "setU neither gives a new object nor raises TypeError"
    [] e.op = "setLaue" -> IF e.n = -1 THEN (IF Raises(e.out, {"ValueError"}) THEN "ok" ELSE "an invalid group does not raise ValueError")
                           ELSE IF Made(e.out) THEN "ok" ELSE "a valid group does not give a new object"
    [] OTHER -> "crash"
After(s, e) == [objs |-> IF e.op \in {"setU", "setLaue"} /\ Made(e.out)
                         THEN Append(s.objs, IF e.op = "setU" THEN <<s.ev, s.objs[e.obj][2]>> ELSE <<s.objs[e.obj][1], s.ev>>) ELSE s.objs,
                ev |-> s.ev + 1]
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
