--------------------------------- MODULE MC_C08 ---------------------------------
(* Construction as a sequence of validation steps taken in any order: the object *)
(* is built exactly when every step passes, whichever order is used.  Every      *)
(* combination of dimension, type number, number of parameters and position of a *)
(* non-positive parameter is explored and emitted for replay.                    *)
EXTENDS Bravais, Json
CONSTANTS MaxId, MaxLen
VARIABLES inp, done, res
Template == <<3, 4, 5, 80, 85, 95>>
Inputs == { [dim |-> d, id |-> i, len |-> n, neg |-> z, sub |-> s] : d \in 1..4, i \in -1..MaxId, n \in 0..MaxLen, z \in 0..MaxLen, s \in {0, -2} }
OK(x) == x.neg <= x.len /\ (x.neg = 0 => x.sub = 0)
Steps == {"dimension", "type", "number", "sign"}
Init == inp \in {x \in Inputs : OK(x)} /\ done = {} /\ res = "open"
Known(x) == x.dim \in {2, 3} /\ x.id \in 1..NTypes(x.dim)
Passes(x, s) == CASE s = "dimension" -> x.dim \in {2, 3}
                  [] s = "type" -> Known(x)
                  [] s = "number" -> Known(x) => x.len = NParams(x.dim, x.id)
                  [] s = "sign" -> x.neg = 0
Check(s) == /\ res = "open" /\ s \in Steps \ done
            /\ done' = done \cup {s}
            /\ res' = IF ~Passes(inp, s) THEN "ValueError" ELSE IF done' = Steps THEN "built" ELSE "open"
            /\ UNCHANGED inp
Next == \E s \in Steps : Check(s)
Built(x) == x.dim \in {2, 3} /\ x.id \in 1..NTypes(x.dim) /\ x.len = NParams(x.dim, x.id) /\ x.neg = 0
Decided == res # "open" => (res = "built" <=> Built(inp))
Emit == (done = {}) => PrintT("CASE " \o ToJson(inp))
=================================================================================
