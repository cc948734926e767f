------------------------------ MODULE MsgTrace ------------------------------
(* One message object over a history of decodes (dec), direct settings (set)  *)
(* and encodes (enc: one output buffer; caps: many buffer sizes).              *)
EXTENDS Text, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, cur
vars == <<tr, l, cur>>
T == Traces[tr]
Ev == T.ev
E == Ev[l]
TDefs(x) == T.defs
Pick(seq, P(_)) == LET I == {i \in 1..Len(seq) : P(seq[i])} IN IF I = {} THEN <<>> ELSE <<seq[CHOOSE i \in I : \A j \in I : j <= i]>>
THdr(en) == LET p == Pick(T.vals, LAMBDA x : x.name = en) IN IF p = <<>> THEN <<>> ELSE <<p[1].vals>>
TVals(id) == LET p == Pick(T.evals, LAMBDA x : x.id = id) IN IF p = <<>> THEN <<>> ELSE p[1].vals
TResp(x) == LET p == THdr("Responses") IN IF p = <<>> THEN <<>> ELSE p[1]
TMsgs(x) == T.msgs
G == INSTANCE Message WITH GMsgs <- TMsgs, GDefs <- TDefs, GEnum <- THdr, GVals <- TVals
M == INSTANCE MsgSpec WITH MDefs <- TDefs, MVals <- TVals, MResp <- TResp
\* the content of the message object: unset, not specified (after an unsuccessful decode), or the values v of the fields f
Unset == [s |-> "unset"]
Free == [s |-> "free"]
Holds(f, v) == [s |-> "holds", f |-> f, v |-> v]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ cur = Unset
Is(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED tr
-----------------------------------------------------------------------------
Msg(id) == G!Msg(id)
FieldsOf(m, crc) == G!FieldsOf(m, crc)
DecBody(f) == IF E.fmt # "JSON" THEN G!DecBytes(f, E.fmt, E.b) ELSE IF E.broken THEN [st |-> "MALFORMED_INPUT", v |-> <<>>] ELSE M!DecObj(f, E.j)
Decoded(f) == LET r == DecBody(f) IN
              CASE r.st = "SUCCESS" -> E.st = "SUCCESS" /\ E.ok /\ M!ValsOk(f, E.got, r.v) /\ cur' = Holds(f, E.got)
                [] r.st = "ANY" -> E.st \in {"SUCCESS", "MALFORMED_INPUT"} /\ cur' = Free
                [] OTHER -> E.st = r.st /\ cur' = Free
Decode == /\ Is("dec")
       /\ CASE E.null -> E.st = "NULL_PROVIDED" /\ UNCHANGED cur
            [] ~E.db -> E.st = "NO_DATABASE" /\ UNCHANGED cur
            [] E.resp /\ E.fmt \notin G!Texts \cup G!Abbs \cup G!Bins -> E.st = "NO_DEFINITION" /\ UNCHANGED cur
            [] E.resp -> Decoded(M!RespFields)
            [] Msg(E.id) = <<>> -> E.st = "NO_DEFINITION" /\ UNCHANGED cur
            [] E.rx -> E.st = "UNSUPPORTED" /\ UNCHANGED cur
            [] OTHER -> Decoded(FieldsOf(Msg(E.id)[1], E.crc))
Set == /\ Is("set")
       /\ LET f == FieldsOf(Msg(E.id)[1], E.crc) IN E.ok /\ E.got = E.v /\ cur' = Holds(f, E.v)
-----------------------------------------------------------------------------
Encoded(f, v) == G!Encoded(E.h, E.short, E.f, f, v)
Enc == /\ Is("enc") /\ UNCHANGED cur
       /\ E.clean
       /\ CASE E.null -> E.st = "NULL_PROVIDED"
            [] ~E.db -> E.st = "NO_DATABASE"
            [] cur = Unset -> E.st = "NO_DEFINITION"
            [] cur = Free -> TRUE
            [] OTHER -> LET o == Encoded(cur.f, cur.v) IN
                        /\ E.st = o.st
                        /\ o.st = "SUCCESS" => /\ E.out = o.b
                                               /\ E.ml = Len(o.b) /\ E.mo = 0
                                               /\ E.hl = o.hl /\ E.bl = o.bl
                                               /\ E.ho = o.ho /\ E.bo = o.bo
\* E.r: for each buffer size: status, whether the bytes are those of an ample buffer, whether anything outside the buffer was written
SLACK == 16
Caps == /\ Is("caps") /\ UNCHANGED cur
        /\ IF cur.s # "holds" THEN TRUE
           ELSE LET o == Encoded(cur.f, cur.v)
                    n == Len(o.b) IN
                \/ o.st # "SUCCESS" /\ \A i \in 1..Len(E.r) : E.r[i].st # "SUCCESS" /\ E.r[i].clean
                \/ /\ o.st = "SUCCESS"
                   /\ \A i \in 1..Len(E.r) : LET x == E.r[i] IN
                        /\ x.clean
                        /\ x.st \in {"SUCCESS", "BUFFER_FULL"}
                        /\ x.st = "SUCCESS" => x.same /\ x.cap >= n
                        /\ x.cap >= n + SLACK => x.st = "SUCCESS"
Done == l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Decode \/ Set \/ Enc \/ Caps \/ Done]_vars
=============================================================================
