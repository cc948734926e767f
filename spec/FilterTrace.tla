----------------------------- MODULE FilterTrace -----------------------------
(* After every operation the real filter is asked about all messages of the   *)
(* scenario.                                                                  *)
EXTENDS FilterSpec, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, f
vars == <<tr, l, f>>
Ev == Traces[tr].ev
E == Ev[l]
Q == Traces[tr].q
Init == tr \in 1..Len(Traces) /\ l = 1 /\ f = Empty
\* what an inverted period of zero selects is not specified
Free(g, m) == g.dec = <<0>> /\ g.id
Step == /\ l <= Len(Ev) /\ f' = Apply(f, E) /\ l' = l + 1 /\ UNCHANGED tr
        /\ Len(E.r) = Len(Q) /\ \A i \in 1..Len(Q) : E.r[i] = Pass(f', Q[i]) \/ Free(f', Q[i])
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
