--------------------------------- MODULE Objects ---------------------------------
(* An object built from an outside array, answering queries through lazily       *)
(* filled caches (Lattice, BravaisLattice, MatrixGroup, Martensite, TwinPair,    *)
(* TwinSystem).  The outside world keeps references: to the array it passed in   *)
(* and to every answer it received, and may overwrite them at any time.          *)
(* Copies = TRUE is the documented design (copy in, copy out); Copies = FALSE    *)
(* is the aliasing design, kept to show that the property below is not vacuous.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Queries, Depth, Copies
VARIABLES inner,      \* what the object computes from
          cache,      \* query -> answer stored, or "empty"
          lastq,      \* query whose answer was handed out last, or "none"
          ans,        \* the last answer
          hist        \* the history of calls, for replay
vars == <<inner, cache, lastq, ans, hist>>
Truth(q) == <<"answer", q>>                      \* what a fresh object answers
Compute(q) == IF inner = "good" THEN Truth(q) ELSE <<"wrong", q>>
Init == inner = "good" /\ cache = [q \in Queries |-> <<"empty">>] /\ lastq = "none" /\ ans = <<"none">> /\ hist = <<>>
Query(q) == /\ ans' = IF cache[q] = <<"empty">> THEN Compute(q) ELSE cache[q]
            /\ cache' = [cache EXCEPT ![q] = ans']
            /\ lastq' = q /\ hist' = Append(hist, <<"query", q>>) /\ UNCHANGED inner
(* the caller overwrites the array it passed to the constructor                  *)
SpoilArgument == /\ inner' = IF Copies THEN inner ELSE "spoilt"
                 /\ hist' = Append(hist, <<"spoil", "argument">>) /\ UNCHANGED <<cache, lastq, ans>>
(* the caller overwrites the answer it received last                             *)
SpoilAnswer == /\ lastq # "none"
               /\ cache' = IF Copies THEN cache ELSE [cache EXCEPT ![lastq] = <<"wrong", lastq>>]
               /\ hist' = Append(hist, <<"spoil", "answer">>) /\ UNCHANGED <<inner, lastq, ans>>
Next == Len(hist) < Depth /\ (SpoilArgument \/ SpoilAnswer \/ \E q \in Queries : Query(q))
(* every answer is the one a fresh object gives, whatever happened before        *)
HistoryFree == lastq # "none" => ans = Truth(lastq)
CacheHonest == \A q \in Queries : cache[q] \in {<<"empty">>, Truth(q)}
=================================================================================
