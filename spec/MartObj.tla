--------------------------------- MODULE MartObj ---------------------------------
(* Martensite objects as persistent values: setU and setLaue on any object made  *)
(* so far create a new one, refused calls create nothing, nothing else changes.  *)
(* An object is [u, g]: u the kind of argument that set its stretch ("none" at   *)
(* the start), g the kind that set its group.                                    *)
EXTENDS Integers, Sequences
CONSTANTS UKinds, BadU, GKinds, BadG, Depth
VARIABLES objs, hist, refused
Init == objs = << [u |-> "none", g |-> "cubic"] >> /\ hist = <<>> /\ refused = FALSE
SetU(i, x) == /\ hist' = Append(hist, [op |-> "setU", obj |-> i, arg |-> x])
              /\ IF x \in BadU THEN refused' = TRUE /\ UNCHANGED objs
                 ELSE refused' = FALSE /\ objs' = Append(objs, [objs[i] EXCEPT !.u = x])
SetLaue(i, x) == /\ hist' = Append(hist, [op |-> "setLaue", obj |-> i, arg |-> x])
                 /\ IF x \in BadG THEN refused' = TRUE /\ UNCHANGED objs
                    ELSE refused' = FALSE /\ objs' = Append(objs, [objs[i] EXCEPT !.g = x])
Next == /\ Len(hist) < Depth
        /\ \E i \in 1..Len(objs) : \/ \E x \in UKinds \cup BadU : SetU(i, x)
                                   \/ \E x \in GKinds \cup BadG : SetLaue(i, x)
vars == <<objs, hist, refused>>
Spec == Init /\ [][Next]_vars
(* objects never change once made, and each call makes at most one               *)
Persistent == [][Len(objs') \in {Len(objs), Len(objs) + 1} /\ SubSeq(objs', 1, Len(objs)) = objs]_vars
KeepsOther == [][Len(objs') > Len(objs) =>
                 LET h == hist'[Len(hist')]
                     n == objs'[Len(objs')]
                 IN IF h.op = "setU" THEN n.g = objs[h.obj].g /\ n.u = h.arg ELSE n.u = objs[h.obj].u /\ n.g = h.arg]_vars
OnlyValid == \A i \in 1..Len(objs) : objs[i].u \in UKinds \cup {"none"} /\ objs[i].g \in GKinds \cup {"cubic"}
=================================================================================
