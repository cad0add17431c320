--------------------------------- MODULE T_C23 ----------------------------------
(* Conformance for C23.  Cases[k].hd: us the variants given to the system, g the *)
(* elements of the group, known the pairs [i, j, e] built with a 180 degree      *)
(* rotation about e.  e.tab is the twin table, e.ax the axes of its pairs.       *)
EXTENDS Twins, Conform
VARIABLES k, l, st
Start(c) == "start"
Us == Cases[k].hd.us
Gs == Cases[k].hd.g
Kn == Cases[k].hd.known
Tol == NTen(13)
SureSame(U, V) == MEq(U, V)
SureDiff(U, V) == NLe(NTen(4), MaxDiff(U, V))
SureTwin(U, V) == SureDiff(U, V) /\ MidIn(U, V, Rat(9951, 10000), Rat(10049, 10000))
SureNot(U, V) == SureSame(U, V) \/ ~MidIn(U, V, Rat(9949, 10000), Rat(10051, 10000))
(* 180 degree rotations of the group that relate U and V                         *)
ConvBy(G, U, V) == { i \in 1..Len(G) : IsHalf(G[i]) /\ MClose(MMul(G[i], MMul(U, Transp(G[i]))), V, Tol) }
NearConv(G, U, V) == \E i \in 1..Len(G) : IsHalf(G[i]) /\ MClose(MMul(G[i], MMul(U, Transp(G[i]))), V, NTen(4))
(* C has its largest or smallest eigenvalue well away from 1                     *)
Clear(U, V) == Below(U, V, Rat(101, 100)) <= 2 /\ Below(U, V, Rat(99, 100)) >= 1
(* what is known of the axes of a pair: an axis e is known; 1, 2 or any (0) axes *)
Count(U, e) == IF KryBelow(e, U, NTen(9)) THEN 2 ELSE IF ~KryBelow(e, U, NTen(3)) THEN 1 ELSE 0
AxesVerdict(ax, U, V, e) ==
  IF \E a \in 1..Len(ax) : ~IsVec(ax[a], 3) \/ ~NClose(Norm2(ax[a]), 1, NTen(9)) THEN "an axis is not a unit vector"
  ELSE IF \E a \in 1..Len(ax) : ~Relates(ax[a], U, V, NTen(5)) THEN "an axis is not that of a 180 degree rotation relating the variants"
  ELSE IF \E a, b \in 1..Len(ax) : a < b /\ Parallel(ax[a], ax[b], NTen(3)) THEN "an axis is listed twice"
  ELSE IF e # <<>> /\ Clear(U, V) /\ \A a \in 1..Len(ax) : ~Parallel(ax[a], e, NTen(6)) THEN "the axis of a 180 degree rotation relating the variants is missing"
  ELSE IF e # <<>> /\ Clear(U, V) /\ Count(U, e) # 0 /\ Len(ax) # Count(U, e) THEN "wrong number of axes"
  ELSE "ok"
(* -- the table ---------------------------------------------------------------- *)
Pair(t) == {t[1], t[2]}
TableVerdict(t) ==
  IF \E p \in 1..Len(t) : Len(t[p]) # 2 \/ ~(t[p][1] \in 0..(Len(Us) - 1)) \/ ~(t[p][2] \in 0..(Len(Us) - 1)) \/ t[p][1] = t[p][2] THEN "an entry is not a pair of variants"
  ELSE IF \E p, q \in 1..Len(t) : p < q /\ Pair(t[p]) = Pair(t[q]) THEN "a pair is listed twice"
  ELSE IF \E p \in 1..Len(t) : SureNot(Us[t[p][1] + 1], Us[t[p][2] + 1]) THEN "a pair that cannot be twinned is listed"
  ELSE IF \E i, j \in 1..Len(Us) : i < j /\ SureTwin(Us[i], Us[j]) /\ \A p \in 1..Len(t) : Pair(t[p]) # {i - 1, j - 1} THEN "a twin is missing"
  ELSE "ok"
(* the table as returned: an n x 2 array, or an empty list                       *)
TabOf(o) == IF o.t = "list" /\ o.v = <<>> THEN <<>> ELSE o.v
PU(e, p) == Us[e.tab[p][1] + 1]
PV(e, p) == Us[e.tab[p][2] + 1]
(* an axis known for the pair p: from a rotation of the group, or by construction *)
KnownAxis(e, p) ==
  LET by == ConvBy(Gs, PU(e, p), PV(e, p))
      kn == { i \in 1..Len(Kn) : {Kn[i][1], Kn[i][2]} = Pair(e.tab[p]) }
  IN IF by # {} THEN AxisOf(Gs[CHOOSE i \in by : TRUE])
     ELSE IF kn # {} THEN Kn[CHOOSE i \in kn : TRUE][3] ELSE <<>>
IdxOf(o) == IF o.t = "list" /\ o.v = <<>> THEN <<>> ELSE o.v
IdxOK(o, n) == (o.t = "arr" /\ (o.shape = <<0>> \/ Len(o.shape) = 1) /\ \A i \in 1..Len(o.v) : o.v[i] \in 0..(n - 1) /\ \A j \in 1..(i - 1) : o.v[i] # o.v[j])
               \/ (o.t = "list" /\ o.v = <<>>)
Has(o, p) == \E i \in 1..Len(IdxOf(o)) : IdxOf(o)[i] = p - 1
CompVerdict(e, flip) ==
  IF ~IdxOK(e.out, Len(e.tab)) THEN "the answer is not a list of different table rows"
  ELSE IF \E p \in 1..Len(e.tab) : LET a == KnownAxis(e, p) IN a # <<>> /\ Clear(PU(e, p), PV(e, p)) /\
               \/ (Count(PU(e, p), a) = 2 /\ Has(e.out, p) = flip)
               \/ (Count(PU(e, p), a) = 1 /\ Has(e.out, p) # flip)
          THEN "a compound twin is misclassified"
  ELSE IF \E p \in 1..Len(e.tab) : (Has(e.out, p) # flip) /\ Len(e.ax[p]) < 2 THEN "a twin without two axes is called compound"
  ELSE IF \E p \in 1..Len(e.tab) : (Has(e.out, p) = flip) /\ Len(e.ax[p]) >= 2 THEN "a twin with two axes is not called compound"
  ELSE "ok"
(* the axes reported for a pair that the spec knows to be untwinnable must not exist *)
Verdict(s, e) ==
  CASE e.op = "table" ->
         IF ~(e.out.t = "arr" \/ (e.out.t = "list" /\ e.out.v = <<>>)) THEN "not a table"
         ELSE IF TabOf(e.out) # e.tab THEN "the table changes from one question to the next"
         ELSE TableVerdict(e.tab)
    [] e.op = "pairs" ->
         IF e.out.t # "list" \/ Len(e.out.v) # Len(e.tab) THEN "not one pair per table row"
         ELSE IF \E p \in 1..Len(e.tab) : ~MEq(e.out.v[p].v[1].v, PU(e, p)) \/ ~MEq(e.out.v[p].v[2].v, PV(e, p)) THEN "a twin pair does not have the variants of its table row"
         ELSE "ok"
    [] e.op = "conv" ->
         IF ~IdxOK(e.out, Len(e.tab)) THEN "the answer is not a list of different table rows"
         ELSE IF \E p \in 1..Len(e.tab) : ~Has(e.out, p) /\ ConvBy(Gs, PU(e, p), PV(e, p)) # {} THEN "a conventional twin is not reported"
         ELSE IF \E p \in 1..Len(e.tab) : Has(e.out, p) /\ ~NearConv(Gs, PU(e, p), PV(e, p)) THEN "a twin that no 180 degree rotation of the group relates is called conventional"
         ELSE "ok"
    [] e.op = "comp" -> CompVerdict(e, FALSE)
    [] e.op = "typeI" -> CompVerdict(e, TRUE)
    [] e.op = "axes" ->
         LET bad == { p \in 1..Len(e.tab) : AxesVerdict(e.ax[p], PU(e, p), PV(e, p), KnownAxis(e, p)) # "ok" }
         IN IF bad = {} THEN "ok" ELSE LET p == CHOOSE p \in bad : TRUE IN AxesVerdict(e.ax[p], PU(e, p), PV(e, p), KnownAxis(e, p))
    [] e.op = "Ulist" -> IF e.out.t = "arr" /\ Len(e.out.v) = Len(Us) /\ \A i \in 1..Len(Us) : MEq(e.out.v[i], Us[i]) THEN "ok" ELSE "Ulist is not the given list"
    [] e.op = "twinnable" ->
         IF ~IsBool(e.out) THEN "the answer is not a boolean"
         ELSE IF e.out.v = FALSE /\ SureTwin(e.u, e.v) THEN "a twin is not recognised"
         ELSE IF e.out.v = TRUE /\ SureNot(e.u, e.v) THEN "a pair that cannot be twinned is called twinnable"
         ELSE "ok"
    [] e.op = "isconv" ->
         IF ~IsBool(e.out) THEN "the answer is not a boolean"
         ELSE IF e.out.v = FALSE /\ SureTwin(e.u, e.v) /\ ConvBy(e.g, e.u, e.v) # {} THEN "a conventional twin is not reported"
         ELSE IF e.out.v = TRUE /\ ~NearConv(e.g, e.u, e.v) THEN "a twin that no 180 degree rotation of the group relates is called conventional"
         ELSE IF e.out.v = TRUE /\ SureNot(e.u, e.v) THEN "an untwinnable pair is called conventional"
         ELSE "ok"
    [] e.op \in {"ax", "iscomp"} ->
         LET by == ConvBy(e.g, e.u, e.v)
             a == IF e.e # <<>> THEN e.e ELSE IF by # {} THEN AxisOf(e.g[CHOOSE i \in by : TRUE]) ELSE <<>>
         IN IF SureNot(e.u, e.v) THEN (IF Raises(e.out, {"AttributeError"}) THEN "ok" ELSE "an untwinnable pair has axes")
            ELSE IF ~SureTwin(e.u, e.v) THEN "ok"
            ELSE IF e.op = "iscomp" THEN
                 (IF ~IsBool(e.out) THEN "the answer is not a boolean"
                  ELSE IF a # <<>> /\ Clear(e.u, e.v) /\ ((Count(e.u, a) = 2 /\ e.out.v = FALSE) \/ (Count(e.u, a) = 1 /\ e.out.v = TRUE)) THEN "a compound twin is misclassified"
                  ELSE "ok")
            ELSE IF e.out.t # "list" THEN "not a list of axes"
            ELSE AxesVerdict([i \in 1..Len(e.out.v) |-> e.out.v[i].v], e.u, e.v, a)
    [] e.op = "refused" -> IF Raises(e.out, {"ValueError"}) THEN "ok" ELSE "bad construction parameters are not refused"
    [] OTHER -> "crash"
After(s, e) == e.op
TInit == k \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[k])
TNext == /\ l <= Len(Cases[k].ev)
         /\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\ l' = Len(Cases[k].ev) + 2 /\ st' = st
         /\ UNCHANGED k
=================================================================================
