--------------------------------- MODULE MC_C29 ---------------------------------
(* A report written line by line and read line by line: the reader accepts every  *)
(* line at its turn, rejects it at any other turn at which it would mean something *)
(* else, and is back at the beginning of a solution exactly after a whole one.     *)
EXTENDS Report, Json
CONSTANTS Dims, MaxSol
VARIABLES dim, how, n, w, r, chan, got
vars == <<dim, how, n, w, r, chan, got>>
S(i) == [cor |-> Mat(dim, dim, LAMBDA a, b : NDiv(7 * i + 3 * a - b, 3)), u |-> Mat(dim, dim, LAMBDA a, b : NDiv(i + 5 * (a + b) + a * b, 7)),
         h |-> Mat(dim, dim, LAMBDA a, b : IF a = b THEN i ELSE IF b < a THEN -1 ELSE 0),
         lams |-> VecOf(dim, LAMBDA a : NDiv(11 * i + a, 13)), d |-> NDiv(i, 17)]
Init == dim \in Dims /\ how \in {"hnf", "direct"} /\ n \in 0..MaxSol /\ w = Begin /\ r = Begin /\ chan = <<>> /\ got = 0
Write == w.i <= n /\ Len(chan) < 2 /\ chan' = Append(chan, Written(w, how, dim, S(w.i))) /\ w' = Advance(w, how, dim) /\ UNCHANGED <<dim, how, n, r, got>>
Read == chan # <<>> /\ LineOk(r, how, dim, S(r.i), Head(chan)) /\ chan' = Tail(chan) /\ r' = Advance(r, how, dim)
        /\ got' = got + (IF r'.i > r.i THEN 1 ELSE 0) /\ UNCHANGED <<dim, how, n, w>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Accepts == chan # <<>> => LineOk(r, how, dim, S(r.i), Head(chan))
Whole == (r.part = 1 /\ r.row = 1) => got = r.i - 1
(* a line is not mistaken for that of another solution, or another row            *)
Distinct == (r.i <= n /\ chan # <<>>) => \A j \in 1..MaxSol : (j # r.i /\ Head(chan).kind # "name") => ~LineOk([r EXCEPT !.i = j], how, dim, S(j), Head(chan))
RowsApart == (r.i <= n /\ chan # <<>> /\ Head(chan).kind \in {"cor", "u"}) => \A k \in 1..dim : k # r.row => ~LineOk([r EXCEPT !.row = k], how, dim, S(r.i), Head(chan))
AllRead == <>(got = n /\ chan = <<>>)
Emit == (w = Begin /\ n > 0 /\ dim = 2) => \A d \in 1..4 : \A m \in (IF how = "hnf" THEN {"Cauchy", "Ericksen", "strain"} ELSE {"Cauchy"}) :
          PrintT("CASE " \o ToJson([dim |-> dim, how |-> how, nsol |-> n, disp |-> d, dist |-> m]))
=================================================================================
