------------------------------ MODULE CrcTrace ------------------------------
(* Trace validation of the CRC library: each event is one computation made  *)
(* by the real code, with every entry point's result.                       *)
EXTENDS Crc, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1

Expected(e) == CrcOf(e.d, e.w, e.poly, e.rev, e.init)

\* e.out: results of the code's entry points over the whole block;
\* e.split: results of feeding the block in two calls at each split point.
Crc == /\ l <= Len(Ev) /\ E.op = "crc"
       /\ LET x == Expected(E) IN /\ \A k \in 1..Len(E.out) : E.out[k] = x
                                  /\ \A k \in 1..Len(E.split) : E.split[k] = x
       /\ l' = l + 1 /\ UNCHANGED tr
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Crc \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
