-------------------------------- MODULE Conform --------------------------------
(* Frame of every conformance specification T_Cxx.  A recorded case is a history *)
(* of calls against the real code: [id, kind, ev], ev a sequence of events       *)
(* [op |-> name, ... arguments ..., out |-> tagged result].  Every case is one   *)
(* initial state; every step consumes one event, which must be a step that the   *)
(* property's specification allows in the abstract state st.  T_Cxx defines      *)
(*   Start(c)       the abstract state before case c                             *)
(*   Verdict(s, e)  "ok", or the name of the clause of the spec that e violates  *)
(*   After(s, e)    the abstract state after e                                   *)
(* A rejected event is printed and ends its case.                                *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

(* tagged results                                                                *)
Tag(o)       == o.t
IsExc(o)     == o.t = "exc"
Raises(o, s) == o.t = "exc" /\ o.v \in s
IsBool(o)    == o.t = "bool"
IsT(o)       == o.t = "bool" /\ o.v = TRUE
IsF(o)       == o.t = "bool" /\ o.v = FALSE
IsNum(o)     == o.t = "num"
IsArr(o)     == o.t = "arr"
IsNone(o)    == o.t = "none"
(* the first clause that fails, given a sequence of <<name, holds>>; clauses are *)
(* evaluated in order and only up to the first failure                           *)
RECURSIVE FirstBad(_, _)
FirstBad(cl, i) == IF i > Len(cl) THEN "ok" ELSE IF cl[i][2] THEN FirstBad(cl, i + 1) ELSE cl[i][1]
Clauses(cl) == FirstBad(cl, 1)
=================================================================================
