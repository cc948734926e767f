----------------------------- MODULE FramePlan -----------------------------
(* Generator of framing plans: which segments the stream consists of, where *)
(* it is cut into writes and how much room the caller offers for each get.  *)
(* Every plan reachable within the bounds is printed; the driver turns the  *)
(* abstract segments into bytes and replays the plan into a real framer.    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds,      \* kinds of frame a segment may be
          Faults,     \* what may be wrong with a segment ("ok" = nothing)
          Marks,      \* landmarks inside a segment at which the stream may be cut
          Rooms,      \* room offered by the caller
          MaxSegs, MaxCuts
VARIABLES plan, cuts, ncut
vars == <<plan, cuts, ncut>>
Init == plan = <<>> /\ cuts = <<>> /\ ncut = 0
Segment == /\ Len(plan) < MaxSegs
           /\ \E k \in Kinds, f \in Faults, m \in Marks \union {"none"}, b \in Rooms :
                /\ m # "none" => ncut < MaxCuts
                /\ plan' = Append(plan, [k |-> k, f |-> f])
                /\ cuts' = Append(cuts, [m |-> m, room |-> b])
                /\ ncut' = IF m = "none" THEN ncut ELSE ncut + 1
Next == Segment
Spec == Init /\ [][Next]_vars
Emit == PrintT("@@" \o ToJson([segs |-> plan', cuts |-> cuts']))
=============================================================================
