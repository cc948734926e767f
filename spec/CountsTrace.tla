---------------------------- MODULE CountsTrace ----------------------------
(* A tracker maps a key to the number of increments since the last reset;   *)
(* keys never incremented are absent.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, cnt
vars == <<tr, l, cnt>>
Ev == Traces[tr].ev
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ cnt = <<>>
AsMap(a) == [k \in { a[i][1] : i \in 1..Len(a) } |-> (CHOOSE i \in 1..Len(a) : a[i][1] = k)]
Same(a, m) == /\ Len(a) = Cardinality(DOMAIN m)
              /\ \A i \in 1..Len(a) : a[i][1] \in DOMAIN m /\ m[a[i][1]] = a[i][2]
Observed == Same(E.st, cnt') /\ Same(E.live, cnt') /\ E.size = Cardinality(DOMAIN cnt')
Bump(m, k, n) == IF n = 0 THEN m ELSE IF k \in DOMAIN m THEN [m EXCEPT ![k] = @ + n] ELSE m @@ (k :> n)
Inc == l <= Len(Ev) /\ E.op = "inc" /\ cnt' = Bump(cnt, E.k, E.n) /\ Observed /\ l' = l + 1 /\ UNCHANGED tr
\* one increment of each key of a range
Incs == /\ l <= Len(Ev) /\ E.op = "incs"
        /\ cnt' = [k \in (DOMAIN cnt) \cup (E.k..E.k2) |-> (IF k \in DOMAIN cnt THEN cnt[k] ELSE 0) + (IF k \in E.k..E.k2 THEN 1 ELSE 0)]
        /\ Observed /\ l' = l + 1 /\ UNCHANGED tr
Reset == l <= Len(Ev) /\ E.op = "reset" /\ cnt' = <<>> /\ Observed /\ l' = l + 1 /\ UNCHANGED tr
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Inc \/ Incs \/ Reset \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
