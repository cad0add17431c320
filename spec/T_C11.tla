--------------------------------- MODULE T_C11 ----------------------------------
(* Conformance for C11.  The first event fixes the group (elements as listed)    *)
(* and the stretch; st is "rev", "irr" (decided from the symmetries of the       *)
(* lattice spanned by U) or "any" when these are too close to call or lie        *)
(* outside the standard setting.  Later events are judged against them.          *)
EXTENDS Lattices, Conform
VARIABLES k, l, st
Ev1(c) == c.ev[1]
Same(a, b) == MClose(a, b, NMul(NTen(9), NMax(1, MaxAbs(a))))
Apart(a, b) == ~MClose(a, b, NMul(NTen(4), MaxAbs(a)))
Act(q, U) == MMul(q, MMul(U, Transp(q)))
Signed(M) == \A i \in 1..3 : Cardinality({j \in 1..3 : M[i][j] # 0}) = 1
(* symmetries of the lattice with basis U, if they are all signed permutations   *)
Rev(G, U) ==
  LET A == Aut(MTrunc(Gram(U), 60))
      P == { a \in A : Det(a) = 1 }
      In(a) == \E i \in 1..Len(G) : Same(G[i], a)
  IN IF ~(\A a \in A : Signed(a)) THEN "any"
     ELSE IF \A a \in P : In(a) THEN "rev" ELSE "irr"
Start(c) == IF Len(c.ev) = 0 \/ c.ev[1].op # "laue" THEN "none" ELSE Rev(c.ev[1].g, c.ev[1].u)
G == Cases[k].ev[1].g
U == Cases[k].ev[1].u
Img(i) == Act(G[i], U)
Images3 == VecOf(Len(G), Img)
(* every two images are clearly equal or clearly different                       *)
Clear(W) == \A i \in 1..Len(W) : Same(W[1], W[i]) \/ Apart(W[1], W[i])
Denied(s, o) == s \in {"irr", "any"} /\ Raises(o, {"AttributeError"})
Variants(e) ==
  LET W == Images3
      V == e.out.v
      st1 == Cardinality({ i \in 1..Len(W) : Same(W[i], U) })
  IN IF ~(IsArr(e.out) /\ Len(e.out.shape) = 3 /\ e.out.shape[2] = 3 /\ e.out.shape[3] = 3) THEN "the variants are not a list of 3x3 matrices"
     ELSE IF ~Clear(W) THEN "ok"
     ELSE Clauses(<< <<"the first variant is not U", Same(V[1], U)>>,
            <<"a variant is not an image of U", \A j \in 1..Len(V) : \E i \in 1..Len(W) : Same(W[i], V[j])>>,
            <<"an image of U is missing", \A i \in 1..Len(W) : \E j \in 1..Len(V) : Same(W[i], V[j])>>,
            <<"a variant is listed twice", \A i, j \in 1..Len(V) : i < j => ~Same(V[i], V[j])>>,
            <<"the number of variants is not the index of the stabiliser", Len(V) * st1 = Len(W)>> >>)
Flat(v, i) == v[i].v
Index(e) ==
  LET W == Images3
      V == e.vs.v
      T == e.out.v
      Has(j, i) == \E m \in 1..Len(T[j].v) : T[j].v[m] = i - 1
  IN IF ~(e.out.t = "list" /\ IsArr(e.vs) /\ Len(e.out.v) = Len(V)) THEN "the index table does not have one row per variant"
     ELSE IF ~Clear(W) THEN "ok"
     ELSE IF ~(\A j \in 1..Len(T) : IsArr(T[j])) THEN "a row of the index table is empty"
     ELSE Clauses(<< <<"a group element is not assigned exactly once", \A i \in 1..Len(W) : Cardinality({ <<j, m>> \in (1..Len(T)) \X (1..Len(W)) : m <= Len(T[j].v) /\ T[j].v[m] = i - 1 }) = 1>>,
            <<"the index table lists something that is not a group element", \A j \in 1..Len(T) : \A m \in 1..Len(T[j].v) : T[j].v[m] \in 0..(Len(W) - 1)>>,
            <<"a group element is assigned to another variant", \A j \in 1..Len(T) : \A i \in 1..Len(W) : Has(j, i) => Same(W[i], V[j])>> >>)
Verdict(s, e) ==
  CASE e.op = "laue" -> "ok"
    [] e.op = "no stretch" -> IF Raises(e.out, {"AttributeError"}) THEN "ok" ELSE "asking without a stretch does not raise AttributeError"
    [] e.op = "isreversible" -> IF ~IsBool(e.out) THEN "isreversible does not answer with a boolean"
                                ELSE IF s = "any" \/ (s = "rev") = e.out.v THEN "ok" ELSE "isreversible is wrong"
    [] Denied(s, e.out) -> "ok"
    [] s = "irr" -> "variants of an irreversible transformation are not refused with AttributeError"
    [] IsExc(e.out) -> "the variants of a reversible transformation are refused"
    [] e.op = "getvariants" -> Variants(e)
    [] e.op = "getLaueidx" -> Index(e)
    [] e.op = "getvariant" -> IF IsArr(e.out) /\ IsArr(e.all) /\ e.out.shape = <<3, 3>> /\ Same(e.out.v, e.all.v[e.n]) THEN "ok" ELSE "the n-th variant is not the n-th of the list"
    [] OTHER -> "crash"
After(s, e) == s
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
