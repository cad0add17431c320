--------------------------------- MODULE Merge ----------------------------------
(* The master of the sublattice search.  Each task (Hermite form) yields a list  *)
(* of candidates sorted by distance, <<class, distance>>; tasks run in a pool,   *)
(* the master polls the oldest outstanding task, merges it if it is ready and    *)
(* starts the next task, or puts it back to the end.  The answers of the polls   *)
(* are the schedule.  All tasks merged, the solutions are the nsol closest       *)
(* classes and the ties with the last.                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Tables, Pools, NSols, MaxWait
VARIABLES tab, pool, nsol, started, queue, kept, seen, hist
vars == <<tab, pool, nsol, started, queue, kept, seen, hist>>
Lesser(a, b) == IF a < b THEN a ELSE b
Init == /\ tab \in Tables /\ pool \in Pools /\ nsol \in NSols
        /\ started = Lesser(pool, Len(tab)) /\ queue = [i \in 1..Lesser(pool, Len(tab)) |-> i]
        /\ kept = <<>> /\ seen = {} /\ hist = <<>>
Insert(K, x) == LET p == IF \E i \in 1..Len(K) : K[i][3] >= x[3] THEN CHOOSE i \in 1..Len(K) : K[i][3] >= x[3] /\ \A j \in 1..(i - 1) : K[j][3] < x[3] ELSE Len(K) + 1
                IN SubSeq(K, 1, p - 1) \o <<x>> \o SubSeq(K, p, Len(K))
Trim(K) == IF Len(K) <= nsol THEN K ELSE SelectSeq(K, LAMBDA x : x[3] <= K[nsol][3])
RECURSIVE MergeFrom(_, _, _, _)
MergeFrom(K, S, t, i) ==
  IF i > Len(tab[t]) THEN <<K, S>>
  ELSE LET x == <<t, tab[t][i][1], tab[t][i][2]>>
           id == <<t, tab[t][i][1]>>
       IN IF Len(K) >= nsol /\ x[3] > K[Len(K)][3] THEN <<K, S>>
          ELSE IF id \in S THEN MergeFrom(K, S, t, i + 1)
          ELSE MergeFrom(Trim(Insert(K, x)), S \cup {id}, t, i + 1)
Waits == Len(SelectSeq(hist, LAMBDA b : ~b))
Ready == /\ queue # <<>>
         /\ LET r == MergeFrom(kept, seen, Head(queue), 1) IN kept' = r[1] /\ seen' = r[2]
         /\ IF started < Len(tab) THEN started' = started + 1 /\ queue' = Append(Tail(queue), started + 1)
            ELSE started' = started /\ queue' = Tail(queue)
         /\ hist' = Append(hist, TRUE) /\ UNCHANGED <<tab, pool, nsol>>
Later == /\ queue # <<>> /\ Waits < MaxWait
         /\ queue' = Append(Tail(queue), Head(queue)) /\ hist' = Append(hist, FALSE)
         /\ UNCHANGED <<tab, pool, nsol, started, kept, seen>>
Next == Ready \/ Later
(* ----------------------------- what must come out ---------------------------- *)
AllClasses == UNION { { <<t, tab[t][i][1], tab[t][i][2]>> : i \in 1..Len(tab[t]) } : t \in 1..Len(tab) }
Closer(x) == Cardinality({ y \in AllClasses : y[3] < x[3] })
Wanted == { x \in AllClasses : Closer(x) < nsol }
Done == queue = <<>>
Outcome == Done => /\ { kept[i] : i \in 1..Len(kept) } = Wanted /\ Len(kept) = Cardinality(Wanted)
                   /\ \A i \in 1..(Len(kept) - 1) : kept[i][3] <= kept[i + 1][3]
PoolBound == Len(queue) <= pool
AllStarted == Done => started = Len(tab)
Terminates == <>Done
=================================================================================
