--------------------------------- MODULE Report ---------------------------------
(* The report of a search: what is written, line by line, about a list of         *)
(* solutions, and a reader that moves through it.  A line is a record             *)
(*   [kind, x]   kind: "head" "cor" "u" "h" "lam" "name" "dist",  x: its numbers  *)
(* A solution is [cor, u, h, lams, d].  The position of the reader is             *)
(* [i, part, row]: the next line due is that row of that part of solution i.      *)
EXTENDS LinAlg
Parts(how) == IF how = "hnf" THEN <<"head", "cor", "u", "h", "lam", "name", "dist">> ELSE <<"head", "cor", "u", "lam", "name", "dist">>
RowsOf(part, dim) == IF part \in {"cor", "u", "h"} THEN dim ELSE 1
Begin == [i |-> 1, part |-> 1, row |-> 1]
Advance(p, how, dim) ==
  IF p.row < RowsOf(Parts(how)[p.part], dim) THEN [p EXCEPT !.row = @ + 1]
  ELSE IF p.part < Len(Parts(how)) THEN [i |-> p.i, part |-> p.part + 1, row |-> 1]
  ELSE [i |-> p.i + 1, part |-> 1, row |-> 1]
DistName(dist) == CASE dist = "Cauchy" -> "cauchy" [] dist = "Ericksen" -> "ericksen" [] OTHER -> "strain"
UnitVec(n, j) == VecOf(n, LAMBDA k : IF k = j THEN 1 ELSE 0)
(* the numbers the line due at p stands for                                       *)
Due(p, how, dim, s) ==
  CASE Parts(how)[p.part] = "head" -> <<p.i>>
    [] Parts(how)[p.part] = "cor" -> Col(s.cor, p.row) \o UnitVec(dim, p.row)      \* [cor column j] ==> [e_j]
    [] Parts(how)[p.part] = "u" -> s.u[p.row]
    [] Parts(how)[p.part] = "h" -> s.h[p.row]
    [] Parts(how)[p.part] = "lam" -> s.lams
    [] Parts(how)[p.part] = "dist" -> <<s.d>>
    [] OTHER -> <<>>
(* printed precision                                                              *)
Prec(part, x) ==
  CASE part = "cor" -> Rat(51, 10000)
    [] part = "u" -> NTen(6)
    [] part \in {"lam", "dist"} -> NAdd(NTen(12), NMul(NTen(5), NAbs(x)))
    [] OTHER -> 0
LineOk(p, how, dim, s, line) ==
  /\ line.kind = Parts(how)[p.part]
  /\ line.kind = "name" \/ LET w == Due(p, how, dim, s)
                           IN Len(line.x) = Len(w) /\ \A k \in 1..Len(w) : NClose(line.x[k], w[k], Prec(line.kind, w[k]))
(* the line a writer puts at p, numbers rounded to the precision                  *)
RoundTo(x, k) == NDiv(NRint(NMul(x, NTenPow(k))), NTenPow(k))
Written(p, how, dim, s) ==
  LET part == Parts(how)[p.part]
      w == Due(p, how, dim, s)
  IN [kind |-> part, x |-> VecOf(Len(w), LAMBDA k : NStr(IF part = "cor" THEN RoundTo(w[k], 2) ELSE IF part \in {"u", "lam", "dist"} THEN RoundTo(w[k], 6) ELSE w[k]))]
=================================================================================
