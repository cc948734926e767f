------------------------------- MODULE MsgGen -------------------------------
(* The round-trip theorem of MsgSpec over a set of cases (definition, values, *)
(* enumerations): what a format's encoding states is read back by its         *)
(* decoding. Also prints the encodings, as inputs for the real decoder.        *)
EXTENDS Text, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
K == Cases[i]
Pick(seq, P(_)) == LET I == {j \in 1..Len(seq) : P(seq[j])} IN IF I = {} THEN <<>> ELSE <<seq[CHOOSE j \in I : \A k \in I : k <= j]>>
GDefs(x) == K.defs
GVals(id) == LET p == Pick(K.evals, LAMBDA x : x.id = id) IN IF p = <<>> THEN <<>> ELSE p[1].vals
GResp(x) == <<>>
M == INSTANCE MsgSpec WITH MDefs <- GDefs, MVals <- GVals, MResp <- GResp
F == K.fields
Val == K.v
Bin == M!EncBin(F, Val, FALSE)
Asc == M!ButLast(M!EncAsc(F, Val, FALSE, 0)) \o Bytes("*00000000") \o <<13, 10>>
Abb == M!ButLast(M!EncAsc(F, Val, TRUE, 1)) \o <<13, 10>>
Obj == M!ObjNode(F, Val)
\* equal but for what a text states only to some precision
Leaf(f, a, b) == a = b \/ f.k \in M!FloatK
RECURSIVE Rows(_, _, _)
Same(f, a, b) ==
  CASE M!IsLeaf(f) -> Leaf(f, a, b)
    [] f.t \in {"FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY"} ->
         IF M!IsText(f) /\ f.t # "FIXED_LENGTH_ARRAY" THEN M!Cut(M!Chars(a)) = M!Cut(M!Chars(b)) ELSE Len(a) = Len(b) /\ \A j \in 1..Len(a) : Leaf(f, a[j], b[j])
    [] f.t = "FIELD_ARRAY" -> Len(a) = Len(b) /\ \A j \in 1..Len(a) : Rows(f.fields, a[j], b[j])
    [] OTHER -> a = b
Rows(fs, a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(fs) : Same(fs[j], a[j], b[j])
RtBin == LET r == M!DecBin(F, Bin) IN r.st = "SUCCESS" /\ r.v = Val /\ r.at = Len(Bin)
\* the flattened form has the same length whatever the values
RtFlat == Len(M!EncBin(F, Val, TRUE)) = Len(M!EncBin(F, M!Defaults(F), TRUE))
RtAsc == LET r == M!DecAsc(F, Asc, 1, FALSE) IN r.st = "SUCCESS" /\ Rows(F, Val, r.v)
RtAbb == LET r == M!DecAsc(F, Abb, 1, TRUE) IN r.st = "SUCCESS" /\ Rows(F, Val, r.v)
RtObj == LET r == M!DecObj(F, Obj) IN r.st = "SUCCESS" /\ Rows(F, Val, r.v)
Emit == PrintT("@@" \o ToJson([i |-> i, bin |-> Bin, asc |-> Asc, abb |-> Abb, obj |-> Obj]))
Init == i \in 1..Len(Cases)
Spec == Init /\ [][UNCHANGED i]_i
=============================================================================
