------------------------------ MODULE FlatTrace ------------------------------
(* Structs generated for the messages of a database, as a compiler lays them    *)
(* out, and flattened messages of the real encoder read through them.           *)
EXTENDS Text, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, known
vars == <<tr, l, known>>
T == Traces[tr]
Ev == T.ev
E == Ev[l]
Pick(seq, P(_)) == LET I == {j \in 1..Len(seq) : P(seq[j])} IN IF I = {} THEN <<>> ELSE <<seq[CHOOSE j \in I : \A k \in I : k <= j]>>
GDefs(x) == T.defs
GVals(id) == LET p == Pick(T.evals, LAMBDA x : x.id = id) IN IF p = <<>> THEN <<>> ELSE p[1].vals
GResp(x) == <<>>
M == INSTANCE FlatStruct WITH MDefs <- GDefs, MVals <- GVals, MResp <- GResp
\* the newest definition of a message
MsgOf(id) == Pick(T.msgs, LAMBDA m : m.id = id)[1]
Latest(m) == Pick(m.defs, LAMBDA d : d.crc = m.latest)[1].fields
None == [id |-> 0]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ known = <<>>
Is(op) == l <= Len(Ev) /\ E.op = op /\ UNCHANGED tr /\ l' = l + 1
\* logs known to the public, of those the scenarios use
Website == {"BESTPOS", "RANGE", "VERSION", "TIME"}
NamesOf(all) == {m \in {T.msgs[i].name : i \in 1..Len(T.msgs)} : all \/ m \in Website}
Generate == Is("gen") /\ UNCHANGED known
            /\ LET all == {T.msgs[i].name : i \in 1..Len(T.msgs)} IN {E.names[i] : i \in 1..Len(E.names)} \cap all = NamesOf(E.all)
Struct == Is("struct") /\ E.ok
          /\ LET f == Latest(MsgOf(E.id))
                 w == M!Leaves(f, M!Defaults(f), 0, "") IN
             /\ E.size = w.at
             /\ Len(E.members) = Len(w.ms)
             /\ \A j \in 1..Len(w.ms) : LET x == E.members[j]  y == w.ms[j] IN x.p = y.p /\ x.o = y.o /\ x.s = y.s /\ x.n = y.n /\ x.k \in y.k
          /\ known' = Append(known, [id |-> E.id, size |-> E.size, members |-> E.members])
\* a value of the message, its flattened body read through the struct
Flat == Is("flat") /\ E.st = "SUCCESS" /\ UNCHANGED known
        /\ LET s == Pick(known, LAMBDA x : x.id = E.id)[1]
               w == M!Leaves(Latest(MsgOf(E.id)), E.v, 0, "").ms IN
           /\ Len(E.out) = s.size
           /\ \A j \in 1..Len(w) : LET x == s.members[j] IN SubSeq(E.out, x.o + 1, x.o + (x.s * (IF x.n = 0 THEN 1 ELSE x.n))) = w[j].b
Done == l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Generate \/ Struct \/ Flat \/ Done]_vars
=============================================================================
