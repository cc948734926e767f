---------------------------- MODULE CommandTrace ----------------------------
(* A commander: text of a command in, that command as ASCII or binary out.    *)
(* What is encoded is what a decoder reads from the parameters, under a       *)
(* header which says only what is known.                                      *)
EXTENDS Text, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, db
vars == <<tr, l, db>>
T == Traces[tr]
Ev == T.ev
E == Ev[l]
TDefs(x) == T.defs
TMsgs(x) == T.msgs
TEnum(en) == LET I == {i \in 1..Len(T.vals) : T.vals[i].name = en} IN IF I = {} THEN <<>> ELSE <<T.vals[CHOOSE i \in I : TRUE].vals>>
TVals(id) == LET I == {i \in 1..Len(T.evals) : T.evals[i].id = id} IN IF I = {} THEN <<>> ELSE T.evals[CHOOSE i \in I : TRUE].vals
H == INSTANCE HeaderSpec WITH Defs <- TDefs, EnumVals <- TEnum
G == INSTANCE Message WITH GMsgs <- TMsgs, GDefs <- TDefs, GEnum <- TEnum, GVals <- TVals
Init == tr \in 1..Len(Traces) /\ l = 1 /\ db = T.db
Is(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED tr
-----------------------------------------------------------------------------
Blank == LET I == {i \in 1..Len(E.cmd) : E.cmd[i] = 32} IN IF I = {} THEN Len(E.cmd) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
Name == Take(E.cmd, Blank - 1)
Params == Drop(E.cmd, Blank)
Named == LET I == {i \in 1..Len(T.defs) : T.defs[i].name = Name} IN IF I = {} THEN <<>> ELSE G!Msg(T.defs[CHOOSE i \in I : TRUE].id)
ThisPort == 192
Header(m) == [H!ZeroHdr EXCEPT !.id = m.id, !.ts = <<0, 0>>, !.port = <<0, ThisPort>>, !.crc = m.latest]
SLACK == 16
Failed(st) == E.st = st /\ E.size = E.cap
Command ==
  /\ Is("cmd") /\ UNCHANGED db /\ E.clean
  /\ CASE E.null -> Failed("NULL_PROVIDED")
       [] E.f \notin {"ASCII", "BINARY"} -> Failed("UNSUPPORTED")
       [] ~db -> Failed("NO_DATABASE")
       [] Named = <<>> -> Failed("NO_DEFINITION")
       [] \E i \in 1..Len(E.cmd) : E.cmd[i] = 0 -> TRUE
       [] Len(Params) >= 32768 /\ E.st # "SUCCESS" -> Failed("MALFORMED_INPUT")       \* longer than any message
       [] OTHER ->
          LET m == Named[1]
              f == G!FieldsOf(m, m.latest)
              d == G!DecBytes(f, "ABB_ASCII", Params) IN
          CASE d.st = "ANY" -> TRUE
            [] d.st # "SUCCESS" -> Failed(d.st)
            [] OTHER ->
               LET exact == G!M!ExactAll(f, d.v)
                   o == G!Encoded(Header(m), FALSE, E.f, f, IF exact THEN d.v ELSE G!M!PlugAll(f, d.v))
                   n == Len(o.b) IN
               CASE o.st # "SUCCESS" -> E.st \in {o.st, "BUFFER_FULL"} /\ E.size = E.cap
                 [] exact -> \/ /\ E.st = "SUCCESS" /\ n <= E.cap /\ E.size = n /\ E.out = o.b
                                /\ n < E.cap => E.nul
                             \/ Failed("BUFFER_FULL") /\ n + SLACK > E.cap
                 \* floating-point numbers: what they become is for M02 and E01
                 [] OTHER -> \/ /\ E.st = "SUCCESS" /\ E.size <= E.cap /\ Take(E.out, o.hl) = Take(o.b, o.hl)
                                /\ E.f = "BINARY" => E.size = n
                                /\ E.size < E.cap => E.nul
                             \/ Failed("BUFFER_FULL") /\ n + SLACK > (IF E.f = "BINARY" THEN E.cap ELSE E.cap - 1000)
Load == Is("db") /\ db' = (db \/ E.on)
Done == l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Command \/ Load \/ Done]_vars
=============================================================================
