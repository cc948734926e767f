------------------------------- MODULE FlatMC -------------------------------
(* The leaves FlatStruct places are where the flattened encoding has them, of  *)
(* any value of a definition, and they do not overlap.                          *)
EXTENDS Text, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
K == Cases[i]
Pick(seq, P(_)) == LET I == {j \in 1..Len(seq) : P(seq[j])} IN IF I = {} THEN <<>> ELSE <<seq[CHOOSE j \in I : \A k \in I : k <= j]>>
GDefs(x) == K.defs
GVals(id) == LET p == Pick(K.evals, LAMBDA x : x.id = id) IN IF p = <<>> THEN <<>> ELSE p[1].vals
GResp(x) == <<>>
M == INSTANCE FlatStruct WITH MDefs <- GDefs, MVals <- GVals, MResp <- GResp
E == M!EncBin(K.fields, K.v, TRUE)
L == M!Leaves(K.fields, K.v, 0, "")
Placed == \A m \in M!Range(L.ms) : SubSeq(E, m.o + 1, m.o + Len(m.b)) = m.b
Sized == L.at = Len(E)
Apart == \A j \in 1..(Len(L.ms) - 1) : L.ms[j].o + Len(L.ms[j].b) <= L.ms[j + 1].o
\* where they are does not depend on the values
Fixed == LET D == M!Leaves(K.fields, M!Defaults(K.fields), 0, "").ms IN
         Len(D) = Len(L.ms) /\ \A j \in 1..Len(D) : D[j].p = L.ms[j].p /\ D[j].o = L.ms[j].o /\ Len(D[j].b) = Len(L.ms[j].b)
Init == i \in 1..Len(Cases)
Spec == Init /\ [][UNCHANGED i]_i
=============================================================================
