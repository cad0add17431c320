--------------------------------- MODULE VecGen ---------------------------------
(* Enumeration of the integer vectors of length at most sqrt(r2), coordinate by  *)
(* coordinate in the order 0, 1, -1, 2, -2, ..., resumable at any vector with a  *)
(* smaller length (C16); the direct search (C17) walks it this way.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, R2s, MaxShrink
VARIABLES cur, r2, emitted, shrinks, hist
End == <<"end">>
Inc(x) == IF x > 0 THEN -x ELSE (IF x < 0 THEN -x ELSE 0) + 1
RECURSIVE Sum2(_, _)
Sum2(v, i) == IF i = 0 THEN 0 ELSE v[i] * v[i] + Sum2(v, i - 1)
(* the next vector that differs first at coordinate i                            *)
RECURSIVE Carry(_, _, _)
Carry(v, i, r) ==
  IF i = 0 THEN End
  ELSE LET w == [j \in 1..N |-> IF j < i THEN v[j] ELSE IF j = i THEN Inc(v[i]) ELSE 0]
       IN IF Sum2(w, i) <= r THEN w ELSE Carry(v, i - 1, r)
Succ(v, r) == Carry(v, N, r)
(* the first vector at or after v inside the (smaller) radius                    *)
From(v, r) == IF v = End \/ Sum2(v, N) <= r THEN v
              ELSE Carry(v, (CHOOSE i \in 1..N : Sum2(v, i) > r /\ (i = 1 \/ Sum2(v, i - 1) <= r)) - 1, r)
Init == r2 \in R2s /\ cur = [i \in 1..N |-> 0] /\ emitted = <<>> /\ shrinks = 0 /\ hist = << <<0, r2>> >>
Yield == /\ cur # End /\ emitted' = Append(emitted, cur) /\ cur' = Succ(cur, r2)
         /\ hist' = [hist EXCEPT ![Len(hist)][1] = @ + 1] /\ UNCHANGED <<r2, shrinks>>
Shrink == /\ cur # End /\ shrinks < MaxShrink /\ shrinks' = shrinks + 1
          /\ \E r \in R2s : r < r2 /\ r2' = r /\ cur' = From(cur, r) /\ hist' = Append(hist, <<0, r>>)
          /\ UNCHANGED emitted
Next == Yield \/ Shrink
Ball(r) == { v \in [1..N -> (-r)..r] : Sum2(v, N) <= r }
NoRepeat == \A i, j \in 1..Len(emitted) : i # j => emitted[i] # emitted[j]
Inside == cur = End \/ Sum2(cur, N) <= r2
Complete == cur = End => \A v \in Ball(r2) : \E i \in 1..Len(emitted) : emitted[i] = v
(* order independent of the radius: key order of what was emitted                *)
Key(x) == IF x > 0 THEN 2 * x - 1 ELSE -2 * x
Less(v, w) == \E i \in 1..N : Key(v[i]) < Key(w[i]) /\ \A j \in 1..(i - 1) : v[j] = w[j]
Ordered == \A i \in 1..(Len(emitted) - 1) : Less(emitted[i], emitted[i + 1])
=================================================================================
